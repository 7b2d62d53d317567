//! Every decision of a run comes from here: a seeded generator while searching, a recorded tape
//! while replaying. Decisions are recorded in one lane per purpose so that cutting one lane while
//! shrinking leaves the others aligned. By convention 0 is the plainest choice of any decision.

pub const LANES: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lane {
    /// What the clients do and with which data.
    Work = 0,
    /// Which task runs, and where it is preempted.
    Sched = 1,
    /// Segmentation, delay, back-pressure.
    Net = 2,
    /// What the modem, remote station, rig and operator do.
    Peer = 3,
    /// Injected faults.
    Fault = 4,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Record(pub Vec<Vec<u32>>);

impl Record {
    pub fn len(&self) -> usize {
        self.0.iter().map(|l| l.len()).sum()
    }
}

enum Source {
    Random([u64; LANES]),
    Replay { lanes: Vec<Vec<u32>>, at: [usize; LANES] },
}

pub struct Tape {
    source: Source,
    pub record: Record,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn seed_of(parts: &[u64]) -> u64 {
    parts.iter().fold(0x9e3779b97f4a7c15, |h, &p| mix(h ^ p).wrapping_add(0x9e3779b97f4a7c15))
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        let mut s = [0; LANES];
        for (i, s) in s.iter_mut().enumerate() {
            *s = seed_of(&[seed, i as u64]);
        }
        Tape { source: Source::Random(s), record: Record(vec![Vec::new(); LANES]) }
    }

    pub fn replay(record: &Record) -> Self {
        let mut lanes = record.0.clone();
        lanes.resize(LANES, Vec::new());
        Tape { source: Source::Replay { lanes, at: [0; LANES] }, record: Record(vec![Vec::new(); LANES]) }
    }

    /// A number below `n`.
    pub fn choose(&mut self, lane: Lane, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let l = lane as usize;
        let v = match &mut self.source {
            Source::Random(s) => {
                s[l] = s[l].wrapping_add(0x9e3779b97f4a7c15);
                ((mix(s[l]) >> 32) * n as u64 >> 32) as u32
            }
            Source::Replay { lanes, at } => {
                let v = lanes[l].get(at[l]).copied().unwrap_or(0);
                at[l] += 1;
                v % n
            }
        };
        self.record.0[l].push(v);
        v
    }
}
