//! A reference LZHUF codec and a reference receiver for message transfers, written from the
//! published format: window 2048, look-ahead 60, adaptive Huffman coding of 314 symbols.

const N_CHAR: usize = 314;
const T: usize = 2 * N_CHAR - 1;
const ROOT: usize = T - 1;
pub const WINDOW: usize = 2048;
pub const LONGEST: usize = 60;
/// The longest distance an encoder may use: the look-ahead buffer takes the rest of the window.
pub const FARTHEST: usize = WINDOW - LONGEST;

/// Number of generator steps.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
}

struct Tree {
    freq: Vec<u32>,
    parent: Vec<usize>,
    child: Vec<usize>,
}

impl Tree {
    fn new() -> Tree {
        let mut t = Tree { freq: vec![1; N_CHAR], parent: vec![0; T + N_CHAR], child: (T..T + N_CHAR).collect() };
        for i in (0..T - 1).step_by(2) {
            t.freq.push(t.freq[i] + t.freq[i + 1]);
            t.child.push(i);
        }
        t.link();
        t
    }

    fn link(&mut self) {
        for i in 0..T {
            let c = self.child[i];
            self.parent[c] = i;
            if c < T {
                self.parent[c + 1] = i;
            }
        }
        self.parent[ROOT] = 0;
    }

    fn rebuild(&mut self) {
        let mut freq = Vec::new();
        let mut child = Vec::new();
        for i in 0..T {
            if self.child[i] >= T {
                freq.push((self.freq[i] + 1) / 2);
                child.push(self.child[i]);
            }
        }
        for i in (0..T - 1).step_by(2) {
            let f = freq[i] + freq[i + 1];
            let mut k = freq.len();
            while f < freq[k - 1] {
                k -= 1;
            }
            freq.insert(k, f);
            child.insert(k, i);
        }
        self.freq = freq;
        self.child = child;
        self.link();
    }

    fn count(&mut self, symbol: usize) {
        if self.freq[ROOT] == 0x8000 {
            self.rebuild();
        }
        let mut c = self.parent[symbol + T];
        loop {
            self.freq[c] += 1;
            let k = self.freq[c];
            let mut l = c;
            while l < ROOT && k > self.freq[l + 1] {
                l += 1;
            }
            if l != c {
                self.freq[c] = self.freq[l];
                self.freq[l] = k;
                let (i, j) = (self.child[c], self.child[l]);
                self.child[l] = i;
                self.child[c] = j;
                for (x, p) in [(i, l), (j, c)] {
                    self.parent[x] = p;
                    if x < T {
                        self.parent[x + 1] = p;
                    }
                }
                c = l;
            }
            if c == ROOT {
                break;
            }
            c = self.parent[c];
        }
    }
}

/// Code of the upper six bits of a distance: (length, bits).
fn distance_code(high: usize) -> (u32, u32) {
    // A canonical code: 1, 3, 8, 12, 24 and 16 codes of 3 to 8 bits.
    let mut code = 0u32;
    let mut n = 0;
    for (len, count) in [(3u32, 1usize), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)] {
        for _ in 0..count {
            if n == high {
                return (len, code >> (8 - len));
            }
            code += 1 << (8 - len);
            n += 1;
        }
    }
    unreachable!()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Token {
    Byte(u8),
    /// `dist` 1 is the byte just before.
    Copy { dist: usize, len: usize },
}

#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    n: usize,
}

impl Bits {
    fn put(&mut self, bit: bool) {
        if self.n % 8 == 0 {
            self.out.push(0);
        }
        if bit {
            *self.out.last_mut().unwrap() |= 0x80 >> (self.n % 8);
        }
        self.n += 1;
    }
    fn put_bits(&mut self, len: u32, bits: u32) {
        for i in (0..len).rev() {
            self.put(bits >> i & 1 != 0);
        }
    }
}

/// The compressed form, and the longest code used.
pub fn encode(tokens: &[Token]) -> (Vec<u8>, usize) {
    let mut t = Tree::new();
    let mut bits = Bits::default();
    let mut deepest = 0;
    let mut symbol = |bits: &mut Bits, s: usize| {
        let mut code = Vec::new();
        let mut k = t.parent[s + T];
        while k != ROOT {
            code.push(k & 1 != 0);
            k = t.parent[k];
        }
        deepest = deepest.max(code.len());
        code.iter().rev().for_each(|b| bits.put(*b));
        t.count(s);
    };
    for tok in tokens {
        match *tok {
            Token::Byte(b) => symbol(&mut bits, b as usize),
            Token::Copy { dist, len } => {
                symbol(&mut bits, 253 + len);
                let d = dist - 1;
                let (n, c) = distance_code(d >> 6);
                bits.put_bits(n, c);
                bits.put_bits(6, (d & 63) as u32);
            }
        }
    }
    (bits.out, deepest)
}

/// `None` if the data ends first.
pub fn decode(data: &[u8], size: usize) -> Option<Vec<u8>> {
    decode_deep(data, size).map(|d| d.0)
}

/// The same, and the longest code that occurred.
pub fn decode_deep(data: &[u8], size: usize) -> Option<(Vec<u8>, usize)> {
    let mut deepest = 0;
    let mut pos = 0;
    let mut bit = || {
        let b = data.get(pos / 8)? >> (7 - pos % 8) & 1;
        pos += 1;
        Some(b as usize)
    };
    let mut t = Tree::new();
    let mut out: Vec<u8> = Vec::new();
    while out.len() < size {
        let mut c = t.child[ROOT];
        let mut depth = 0;
        while c < T {
            c = t.child[c + bit()?];
            depth += 1;
        }
        deepest = deepest.max(depth);
        let s = c - T;
        t.count(s);
        if s < 256 {
            out.push(s as u8);
            continue;
        }
        let mut top = 0;
        for _ in 0..8 {
            top = top << 1 | bit()?;
        }
        // The code is a prefix of these eight bits.
        let mut high = 0;
        let mut used = 0;
        for h in 0..64 {
            let (n, code) = distance_code(h);
            if top as u32 >> (8 - n) == code {
                high = h;
                used = n as usize;
                break;
            }
        }
        let mut low = top & ((1 << (8 - used)) - 1);
        for _ in 0..used + 6 - 8 {
            low = low << 1 | bit()?;
        }
        let dist = (high << 6 | low) + 1;
        for _ in 0..s - 253 {
            if out.len() == size {
                break;
            }
            // What lies before the beginning is taken for blanks.
            let dist = (dist - 1) % WINDOW + 1;
            let b = if dist <= out.len() { out[out.len() - dist] } else { b' ' };
            out.push(b);
        }
    }
    Some((out, deepest))
}

pub fn expand(tokens: &[Token]) -> Vec<u8> {
    let mut out = Vec::new();
    for t in tokens {
        match *t {
            Token::Byte(b) => out.push(b),
            Token::Copy { dist, len } => {
                for _ in 0..len {
                    out.push(if dist <= out.len() { out[out.len() - dist] } else { b' ' });
                }
            }
        }
    }
    out
}

/// Cuts a message into tokens the way some peer might: the longest match, any match, or none.
pub fn tokenise(data: &[u8], style: usize, rng: &mut Rng) -> Vec<Token> {
    let mut heads: std::collections::HashMap<[u8; 3], Vec<usize>> = Default::default();
    let mut out = Vec::new();
    let mut i = 0;
    let at = |p: isize| if p < 0 { b' ' } else { data[p as usize] };
    while i < data.len() {
        let most = LONGEST.min(data.len() - i);
        let mut best = (0, 0);
        if most >= 3 && style > 0 {
            let key = [data[i], data[i + 1], data[i + 2]];
            let mut spots: Vec<isize> = heads.get(&key).map(|v| v.iter().rev().take(24).map(|x| *x as isize).collect()).unwrap_or_default();
            if key == *b"   " && rng.below(2) == 0 {
                spots.push(-1 - rng.below(1900) as isize);
            }
            for s in spots {
                let dist = i as isize - s;
                if dist > FARTHEST as isize {
                    continue;
                }
                let mut n = 0;
                while n < most && at(s + n as isize) == data[i + n] {
                    n += 1;
                }
                if n >= 3 {
                    let n = if style == 2 { 3 + rng.below(n - 2) } else { n };
                    if n > best.1 || style == 2 && rng.below(3) == 0 {
                        best = (dist as usize, n);
                    }
                }
            }
            if style == 2 && rng.below(5) == 0 {
                best = (0, 0);
            }
        }
        let step = if best.1 >= 3 {
            out.push(Token::Copy { dist: best.0, len: best.1 });
            best.1
        } else {
            out.push(Token::Byte(data[i]));
            1
        };
        for p in i..i + step {
            if p + 3 <= data.len() {
                heads.entry([data[p], data[p + 1], data[p + 2]]).or_default().push(p);
            }
        }
        i += step;
    }
    out
}

pub fn crc16(data: impl Iterator<Item = u8>) -> u16 {
    let mut crc = 0u16;
    for b in data {
        crc ^= (b as u16) << 8;
        for _ in 0..8 {
            crc = if crc & 0x8000 != 0 { crc << 1 ^ 0x1021 } else { crc << 1 };
        }
    }
    crc
}

/// CRC, size and compressed data, as they are cut into blocks.
pub fn body(size: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = size.to_le_bytes().to_vec();
    b.extend_from_slice(payload);
    let crc = crc16(b.iter().copied());
    let mut out = crc.to_le_bytes().to_vec();
    out.extend(b);
    out
}

pub fn frame_header(title: &[u8], offset: &[u8]) -> Vec<u8> {
    let mut h = vec![1, (title.len() + offset.len() + 2) as u8];
    h.extend_from_slice(title);
    h.push(0);
    h.extend_from_slice(offset);
    h.push(0);
    h
}

pub fn frame_blocks(body: &[u8], mut size: impl FnMut(usize) -> usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut rest = body;
    let mut first = true;
    while !rest.is_empty() {
        let n = size(rest.len()).max(if first { 6 } else { 1 }).min(rest.len()).min(256);
        first = false;
        out.push(2);
        out.push(n as u8);
        out.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
    }
    out.push(4);
    out.push(body.iter().fold(0u8, |a, b| a.wrapping_add(*b)).wrapping_neg());
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Message {
    pub consumed: usize,
    pub title: Vec<u8>,
    pub offset: u32,
    pub crc: u16,
    pub size: u32,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Judged {
    /// A proper beginning; more is needed.
    Open,
    Good(Message),
    /// From `early` bytes on it cannot become a proper transfer any more; with `late` bytes the
    /// damaged part has arrived in full.
    Bad { early: usize, late: Option<usize> },
    /// A transfer without any block: its end, and what it says. The format does not settle it.
    Hollow(Message),
}

pub fn judge(data: &[u8]) -> Judged {
    use Judged::*;
    let get = |i: usize| data.get(i).copied();
    match get(0) {
        None => return Open,
        Some(1) => {}
        Some(_) => return Bad { early: 1, late: Some(2).filter(|n| *n <= data.len()) },
    }
    let Some(len) = get(1) else { return Open };
    let len = len as usize;
    if !(3..=88).contains(&len) {
        // A receiver may look at what the header holds before it rejects it.
        return Bad { early: 2, late: Some(2 + len).filter(|n| *n <= data.len()) };
    }
    let end = 2 + len;
    let mut title = Vec::new();
    let mut offset = Vec::new();
    let mut field = 0;
    for i in 2..end {
        let Some(b) = get(i) else { return Open };
        let bad = match field {
            0 => match b {
                0 => {
                    field = 1;
                    // At least one digit and the final NUL have to follow.
                    end - i - 1 < 2
                }
                b' '..=b'~' => {
                    title.push(b);
                    end - i - 1 < 3
                }
                _ => true,
            },
            1 => match b {
                0 => {
                    field = 2;
                    offset.is_empty() || i + 1 != end
                }
                b'0'..=b'9' => {
                    offset.push(b);
                    i + 1 == end || std::str::from_utf8(&offset).unwrap().parse::<u32>().is_err()
                }
                _ => true,
            },
            _ => true,
        };
        if bad {
            return Bad { early: i + 1, late: Some(end).filter(|n| *n <= data.len()) };
        }
    }
    let offset: u32 = std::str::from_utf8(&offset).unwrap().parse().unwrap();
    let mut all = Vec::new();
    let mut pos = end;
    let mut early = None;
    let mut blocks = 0;
    loop {
        let Some(kind) = get(pos) else { break };
        match kind {
            2 => {
                let Some(n) = get(pos + 1) else { break };
                let n = if n == 0 { 256 } else { n as usize };
                if blocks == 0 && n < 6 {
                    early.get_or_insert(pos + 2);
                }
                if data.len() < pos + 2 + n {
                    break;
                }
                all.extend_from_slice(&data[pos + 2..pos + 2 + n]);
                pos += 2 + n;
                blocks += 1;
            }
            4 => {
                let fine = early.is_none();
                let (crc, size) = if all.len() >= 6 { (u16::from_le_bytes([all[0], all[1]]), u32::from_le_bytes([all[2], all[3], all[4], all[5]])) } else { (0, 0) };
                if fine && blocks > 0 && crc16(all[2..].iter().copied()) != crc {
                    early.get_or_insert(pos + 1);
                }
                let Some(sum) = get(pos + 1) else { break };
                let late = pos + 2;
                if all.iter().fold(sum, |a, b| a.wrapping_add(*b)) != 0 {
                    early.get_or_insert(late);
                }
                let message = Message { consumed: late, title, offset, crc, size, data: all.get(6..).unwrap_or(&[]).to_vec() };
                return match early {
                    Some(early) => Bad { early, late: Some(late) },
                    None if blocks == 0 => Hollow(message),
                    None => Good(message),
                };
            }
            _ => return Bad { early: early.unwrap_or(pos + 1), late: Some(pos + 1) },
        }
    }
    match early {
        Some(early) => Bad { early, late: None },
        None => Open,
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn samples() {
        for s in ["winlink.raw", "winlink2.raw"] {
            let data = std::fs::read(format!("/repo/samples/{}", s)).unwrap();
            let Judged::Good(m) = judge(&data) else { panic!() };
            assert_eq!(m.consumed, data.len());
            assert!(decode(&m.data, m.size as usize).is_some());
        }
    }

    #[test]
    fn round_trip() {
        let mut r = Rng(3);
        for n in [0usize, 1, 2, 3, 100, 5000, 70000] {
            for style in 0..3 {
                let data: Vec<u8> = (0..n).map(|_| (r.below(40) * r.below(7)) as u8).collect();
                let t = tokenise(&data, style, &mut r);
                assert_eq!(expand(&t), data);
                let (c, _) = encode(&t);
                assert_eq!(decode(&c, n).unwrap(), data);
            }
        }
    }
}
