//! Message transfers through a session: a remote station that sends framed, compressed messages
//! over a link that may damage them, a receiver that tries again after every read, and a sender
//! that compresses messages for a standard peer.

use crate::clients::both;
use crate::fam_vara::{draw_cfg, draw_faults};
use crate::hist::Ev;
use crate::kernel::*;
use crate::lzref::{self, Judged, Rng, Token};
use crate::run::*;
use crate::tape::{Lane, Tape};
use crate::tnc::*;
use plusendi::modem::vara::*;
use plusendi::real_tokio::io::{split, AsyncReadExt, AsyncWriteExt};
use crate::hooks::{receive, Received};
use plusendi::StationId;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::net::SocketAddr;
use std::rc::Rc;

/// A message as drawn.
#[derive(Clone, Debug)]
struct Content {
    bytes: Vec<u8>,
    what: &'static str,
    large: bool,
}

fn draw_content(k: &Rc<Kernel>, large: bool) -> Content {
    let w = Lane::Work;
    let kind = k.choose(w, 14);
    let size = k.choose(w, 8);
    let exact = k.range(w, 0, 2000) as usize;
    let seed = (k.choose(w, 1 << 16) as u64) << 16 | k.choose(w, 1 << 16) as u64;
    let n = match size {
        0 => exact % 8,
        1 | 2 => exact % 130,
        3 => k.pick(w, &[59usize, 60, 61, 62, 119, 120, 121, 1, 2, 3]),
        4 | 5 => exact,
        6 => 1900 + exact % 400,
        _ => exact * 3,
    };
    let n = if large { 33_000 + exact * 20 } else if kind == 12 { n + 2200 } else { n };
    let mut r = Rng(seed);
    let (bytes, what) = if large && size < 3 { (deep(seed), "deep") } else { content(kind, n, &mut r) };
    Content { bytes, what, large }
}

pub fn content(kind: u32, n: usize, r: &mut Rng) -> (Vec<u8>, &'static str) {
    let words = ["Mid: ", "Date: ", "Type: Private\r\n", "From: ", "To: ", "Subject: ", "KC1GSL", "N1A", "@winlink.org", "the ", "and ", "position ", "weather ", "\r\n", "2021/12/01 ", "73 "];
    let mut out: Vec<u8> = Vec::with_capacity(n);
    let what = match kind {
        0 => {
            while out.len() < n {
                out.extend_from_slice(words[r.below(words.len())].as_bytes());
            }
            "text"
        }
        1 => {
            out.extend((0..n).map(|_| r.next() as u8));
            "random"
        }
        2 => {
            let b = r.next() as u8;
            out.resize(n, b);
            "constant"
        }
        3 => {
            out.resize(n, b' ');
            if n > 0 && r.below(2) == 0 {
                let at = r.below(n);
                out[at] = b'x';
            }
            "blanks"
        }
        4 => {
            let letters = 2 + r.below(6);
            out.extend((0..n).map(|_| b'a' + r.below(letters) as u8));
            "few-letters"
        }
        5 => {
            let period = 1 + r.below(2100);
            let cell: Vec<u8> = (0..period).map(|_| r.next() as u8).collect();
            out.extend((0..n).map(|i| cell[i % period]));
            "periodic"
        }
        6 => {
            // A block that comes again at the far end of the window.
            let block: Vec<u8> = (0..3 + r.below(80)).map(|_| r.next() as u8).collect();
            let dist = [1980, 1987, 1988, 1989, 1990, 2040, 2047, 2048, 2049, 1000][r.below(10)].max(block.len());
            let fill = r.next() as u8;
            let random = r.below(2) == 0;
            while out.len() < n {
                let at = out.len() % dist;
                out.push(if at < block.len() { block[at] } else if random { r.next() as u8 } else { fill });
            }
            "far-match"
        }
        7 => {
            // Few symbols with frequencies that grow like Fibonacci numbers: the longest codes.
            let mut cum = Vec::new();
            let (mut a, mut b, mut sum) = (1usize, 1usize, 0usize);
            for _ in 0..22 {
                sum += a;
                cum.push(sum);
                (a, b) = (b, a + b);
            }
            out.extend((0..n).map(|_| {
                let x = r.below(sum);
                (cum.iter().position(|c| x < *c).unwrap() * 11 + 3) as u8
            }));
            "skewed"
        }
        8 => {
            out.extend((0..n).map(|i| i as u8));
            "counting"
        }
        9 => {
            while out.len() < n {
                let b = r.next() as u8;
                let c = 1 + r.below(140);
                out.extend(std::iter::repeat(b).take(c));
            }
            "runs"
        }
        10 => {
            // Growing repetitions of what came before.
            while out.len() < n {
                if out.len() > 4 && r.below(3) > 0 {
                    let d = 1 + r.below(out.len().min(2300));
                    let c = 1 + r.below(90);
                    for _ in 0..c {
                        out.push(out[out.len() - d]);
                    }
                } else {
                    out.push(r.next() as u8);
                }
            }
            "self-similar"
        }
        12 => {
            // Long repetitions that differ only in their last byte, with some of them where the
            // encoder's window wraps round.
            let len = 56 + r.below(6);
            let block: Vec<u8> = (0..len).map(|_| 33 + r.below(90) as u8).collect();
            let last = [b' ', 0, b'x', block[0]];
            while out.len() < n {
                let wrap = (out.len() / 2048 + 1) * 2048 + 59 + 2 - r.below(5);
                let gap = wrap - out.len();
                if gap > 2 * len && r.below(4) == 0 {
                    // On to the edge.
                    out.extend((0..gap).map(|i| if r.below(4) == 0 { r.next() as u8 } else { block[i % len] }));
                } else {
                    out.extend((0..r.below(4)).map(|_| r.next() as u8));
                }
                out.extend_from_slice(&block);
                out.push(last[r.below(last.len())]);
            }
            "edge-match"
        }
        11 => {
            out.extend((0..n).map(|_| if r.below(20) == 0 { r.next() as u8 } else { 0 }));
            "sparse"
        }
        _ => {
            out.extend((0..n).map(|_| 0xf0 | r.below(16) as u8));
            "high-bytes"
        }
    };
    out.truncate(n);
    (out, what)
}

/// A message whose statistics drive the adaptive code to its longest codes: repetitions whose
/// lengths have frequencies that grow like Fibonacci numbers, and then symbols that never
/// occurred before.
fn deep(seed: u64) -> Vec<u8> {
    let mut r = Rng(seed);
    let letters = [24usize, 32, 48, 64][r.below(4)];
    let shortest = 3 + r.below(3);
    // What the rare symbols weigh together.
    let rare = 314 + letters;
    let (mut a, mut b) = (rare * (54 + r.below(8)) / 100, rare * (98 + r.below(6)) / 100);
    let mut left = Vec::new();
    for _ in 0..[8, 9, 9, 9][r.below(4)] {
        left.push(a);
        (a, b) = (b, a + b);
    }
    left.reverse();
    let mut out: Vec<u8> = (0..letters as u8).collect();
    for i in 0..letters {
        out.swap(i, r.below(letters));
    }
    // The last repetition, which must not happen to go on with what comes next.
    let mut last = 0;
    let known = |out: &[u8], last: usize, next: u8| {
        let end = out.len();
        let from = end.saturating_sub(lzref::FARTHEST + last);
        let tail = &out[end - last..];
        last > 0 && (from..end - last).any(|i| out[i + last] == next && out[i..i + last] == *tail)
    };
    loop {
        let total: usize = left.iter().sum();
        if total == 0 {
            break;
        }
        let mut x = r.below(total);
        let i = left.iter().position(|n| { let hit = x < *n; x = x.wrapping_sub(*n); hit }).unwrap();
        left[i] -= 1;
        let len = shortest + i;
        let reach = out.len().min(lzref::FARTHEST) - len;
        let mut at = out.len() - len - r.below(reach);
        for _ in 0..20 {
            if !known(&out, last, out[at]) {
                break;
            }
            at = out.len() - len - r.below(reach);
        }
        out.extend_from_within(at..at + len);
        last = len;
    }
    let first = letters as u8 + 10 + r.below(20) as u8;
    out.extend((0..50).map(|i| first + i));
    out
}

/// A transfer the remote station sends.
struct Transfer {
    /// Undamaged: this must come out.
    content: Option<Vec<u8>>,
    title: Vec<u8>,
    offset: u32,
    /// Bytes on the wire.
    wire: Vec<u8>,
    /// Where its blocks begin in `wire`.
    note: String,
}

fn title(k: &Rc<Kernel>) -> Vec<u8> {
    let w = Lane::Work;
    match k.choose(w, 6) {
        0 => b"//WL2K R/ hello".to_vec(),
        1 => Vec::new(),
        2 => b" ~!".to_vec(),
        3 => (0..k.range(w, 0, 80)).map(|i| b' ' + (i * 7 % 95) as u8).collect(),
        4 => vec![b'x'; 80],
        _ => b"Test".to_vec(),
    }
}

fn draw_transfer(k: &Rc<Kernel>, c: Content, damaged: bool, long: bool) -> Transfer {
    let w = Lane::Work;
    let p = Lane::Peer;
    let title = title(k);
    let offset = k.pick(w, &[0u32, 0, 1, 7, 9999, 65535, 4294967295]);
    let mut room = 86 - title.len();
    let mut digits = offset.to_string().into_bytes();
    if digits.len() > room {
        digits = b"0".to_vec();
    }
    room -= digits.len();
    // Some stations fill the offset up with zeros.
    if k.chance(w, 1, 3) {
        let pad = (6usize.saturating_sub(digits.len())).min(room);
        digits.splice(0..0, std::iter::repeat(b'0').take(pad));
    }
    let offset: u32 = std::str::from_utf8(&digits).unwrap().parse().unwrap();
    let seed = k.choose(p, 1 << 20) as u64;
    let mut r = Rng(seed);
    let style = k.choose(p, 3) as usize;
    let style = if c.what == "deep" { 1 } else if c.large { style % 2 } else { style };
    let mut tokens = lzref::tokenise(&c.bytes, style, &mut r);
    let mut bytes = c.bytes;
    if !damaged && !c.large && k.chance(p, 1, 4) {
        // Any sequence of literals and matches a standard encoder may produce.
        tokens.clear();
        let mut n = 0;
        for _ in 0..r.below(200) {
            if r.below(2) == 0 {
                tokens.push(Token::Byte(r.next() as u8));
                n += 1;
            } else {
                let near = r.below(2) == 0;
                let dist = 1 + r.below(if near { 70 } else { lzref::FARTHEST });
                let len = 3 + r.below(58);
                tokens.push(Token::Copy { dist, len });
                n += len;
            }
        }
        let _ = n;
        bytes = lzref::expand(&tokens);
    }
    let (mut payload, deepest) = lzref::encode(&tokens);
    let mut size = bytes.len() as u32;
    let mut note = format!("{} bytes of {}, codes of up to {} bits", bytes.len(), c.what, deepest);
    let cut = if long { k.choose(p, 2) } else { k.choose(p, 6) };
    let mut cuts = Rng(seed ^ 0xabcdef);
    let chunk = move |left: usize| match cut {
        0 => 250,
        1 => 256,
        2 => 1 + cuts.below(256.min(left)),
        3 => [1, 2, 6, 7, 255, 256][cuts.below(6)],
        4 => 1 + cuts.below(8),
        _ => left,
    };
    if !damaged {
        let mut wire = lzref::frame_header(&title, &digits);
        wire.extend(lzref::frame_blocks(&lzref::body(size, &payload), chunk));
        return Transfer { content: Some(bytes), title, offset, wire, note };
    }
    let l = Lane::Fault;
    let mut chunk = chunk;
    if long {
        // More than fits 16 bits, of no meaning.
        let n = k.pick(l, &[65_000u64, 65_525, 70_000, 131_000]) + k.range(l, 0, 20);
        payload = (0..n).map(|_| r.next() as u8).collect();
        size = k.pick(l, &[0, 3, 100, size]);
        note = format!("{} bytes of anything", n);
    }
    let kind = if long { k.pick(l, &[4, 13, 14, 6, 18, 17, 9, 16]) } else { k.choose(l, 21) };
    let at = |k: &Rc<Kernel>, n: usize| k.range(l, 0, n.max(1) as u64 - 1) as usize;
    let mut head = lzref::frame_header(&title, &digits);
    let name;
    // Hostile contents in proper framing.
    match kind {
        0 => {
            name = "payload-altered";
            if payload.is_empty() {
                payload.push(0x5a);
            }
            for _ in 0..k.range(l, 1, 4) {
                let i = at(k, payload.len());
                payload[i] ^= k.range(l, 1, 255) as u8;
            }
        }
        1 => {
            name = "payload-truncated";
            let n = at(k, payload.len());
            payload.truncate(n);
        }
        2 => {
            name = "payload-random";
            let n = k.range(l, 0, 300);
            payload = (0..n).map(|_| r.next() as u8).collect();
            size = k.pick(l, &[size, 3, 100, 1000, 60]);
        }
        3 => {
            name = "size-altered";
            let d = k.range(l, 1, 70) as u32;
            size = k.pick(l, &[size.wrapping_add(d), size.saturating_sub(d), 0, 1, size * 2, 0x10000, 0x200_0000]);
        }
        4 => {
            name = "payload-extended";
            let n = k.range(l, 1, 20);
            payload.extend((0..n).map(|_| r.next() as u8));
        }
        5 => {
            name = "header-odd";
            head = match k.choose(l, 20) {
                12.. => {
                    // Something of it altered, and its length with it.
                    let mut h = head[2..].to_vec();
                    for _ in 0..k.pick(l, &[1, 1, 2]) {
                        let i = at(k, h.len() + 1);
                        let end = h.len() - 1 - digits.len();
                        let i = k.pick(l, &[i, end, h.len().saturating_sub(1), h.len(), end - 1]).min(h.len());
                        let b = k.pick(l, &[b' ', b'0', b'1', b'9', b'-', b'+', b'.', b'a', 0, 0x7f, 0x80, b'\t']);
                        match k.choose(l, 3) {
                            0 => h.insert(i, b),
                            1 if i < h.len() => h[i] = b,
                            _ if i < h.len() => {
                                h.remove(i);
                            }
                            _ => {}
                        }
                        if h.len() <= digits.len() + 3 {
                            break;
                        }
                    }
                    let mut head = vec![1, h.len() as u8];
                    head.extend(h);
                    head
                }
                0 => lzref::frame_header(&title, b""),
                1 => lzref::frame_header(&title, b"4294967296"),
                2 => lzref::frame_header(&title, b"12x"),
                3 => lzref::frame_header(&vec![b'y'; 87], b"0"),
                4 => lzref::frame_header(b"tab\there", b"0"),
                5 => lzref::frame_header(b"caf\xe9", b"0"),
                6 => vec![1, 4, b'a', b'b', b'c', b'd'],
                7 => vec![1, 0],
                8 => vec![1, 5, b'a', 0, b'1', 0, 0],
                9 => vec![1, 4, b'a', 0, b'1', b'2'],
                10 => lzref::frame_header(b"two\0", b"0"),
                _ => vec![1, 255],
            };
        }
        _ => name = "",
    }
    let body = lzref::body(size, &payload);
    let mut wire = head.clone();
    wire.extend(lzref::frame_blocks(&body, &mut chunk));
    let n = wire.len();
    // Where blocks begin.
    let mut spots = Vec::new();
    let mut i = head.len();
    while wire[i] == 2 {
        spots.push(i);
        i += 2 + if wire[i + 1] == 0 { 256 } else { wire[i + 1] as usize };
    }
    let eot = i;
    let in_block = |k: &Rc<Kernel>| {
        let b = at(k, spots.len());
        let len = if wire[spots[b] + 1] == 0 { 256 } else { wire[spots[b] + 1] as usize };
        spots[b] + 2 + at(k, len)
    };
    let name = match kind {
        0..=5 => name,
        6 | 7 => {
            let i = at(k, n);
            wire[i] ^= 1 << k.choose(l, 8);
            "bit-flipped"
        }
        8 => {
            let i = at(k, n);
            wire[i] = wire[i].wrapping_add(k.range(l, 1, 255) as u8);
            "byte-replaced"
        }
        9 => {
            let i = at(k, n);
            let c = k.pick(l, &[1usize, 2, 5, 100]).min(n - i);
            wire.drain(i..i + c);
            "bytes-lost"
        }
        10 => {
            let i = at(k, n);
            let c = k.pick(l, &[1usize, 2, 5, 100]).min(n - i);
            let part = wire[i..i + c].to_vec();
            wire.splice(i..i, part);
            "bytes-duplicated"
        }
        11 => {
            let i = at(k, n);
            let part: Vec<u8> = (0..k.range(l, 1, 4)).map(|_| k.choose(l, 256) as u8).collect();
            wire.splice(i..i, part);
            "bytes-inserted"
        }
        12 => {
            wire.truncate(at(k, n));
            "tail-lost"
        }
        13 => {
            let (i, j) = (in_block(k), in_block(k));
            let d = k.range(l, 1, 255) as u8;
            wire[i] = wire[i].wrapping_add(d);
            wire[j] = wire[j].wrapping_sub(d);
            "compensating-changes"
        }
        14 => {
            let (i, j) = (in_block(k), in_block(k));
            wire.swap(i, j);
            "bytes-swapped"
        }
        15 => {
            let d = k.range(l, 1, 255) as u8;
            if k.chance(l, 1, 4) {
                // Everything sums up to a special value, which the checksum denies.
                let i = head.len() + 2;
                let sum = k.pick(l, &[0u8, 0x80, 0x7f, 0xff]);
                wire[i] = wire[i].wrapping_add(wire[eot + 1]).wrapping_add(sum);
                wire[eot + 1] = sum.wrapping_neg();
            }
            wire[eot + 1] = wire[eot + 1].wrapping_add(d);
            "checksum-altered"
        }
        16 => {
            // Altered CRC with the checksum corrected.
            let i = head.len() + 2 + k.choose(l, 2) as usize;
            let d = k.range(l, 1, 255) as u8;
            wire[i] = wire[i].wrapping_add(d);
            wire[eot + 1] = wire[eot + 1].wrapping_sub(d);
            "crc-altered"
        }
        17 => {
            // Altered contents with the checksum corrected.
            let i = in_block(k);
            let d = k.range(l, 1, 255) as u8;
            wire[i] = wire[i].wrapping_add(d);
            wire[eot + 1] = wire[eot + 1].wrapping_sub(d);
            "checksum-corrected"
        }
        18 if spots.len() > 1 => {
            // Blocks lost, duplicated or out of order.
            let b = at(k, spots.len());
            let end = spots.get(b + 1).copied().unwrap_or(eot);
            let part: Vec<u8> = wire.drain(spots[b]..end).collect();
            match k.choose(l, 3) {
                0 => "block-lost",
                1 => {
                    wire.splice(head.len()..head.len(), part.iter().chain(&part).copied());
                    "block-duplicated"
                }
                _ => {
                    wire.splice(head.len()..head.len(), part);
                    "blocks-reordered"
                }
            }
        }
        19 => {
            wire.drain(head.len()..eot);
            if k.chance(l, 1, 2) {
                let e = head.len() + 1;
                wire[e] = 0;
            }
            "all-blocks-lost"
        }
        _ => {
            // A first block too short for what it has to hold.
            let c = k.range(l, 1, 5) as usize;
            wire.truncate(head.len());
            wire.extend([2, c as u8]);
            wire.extend_from_slice(&body[..c]);
            let rest = lzref::frame_blocks(&body[c..], |_| 200);
            wire.extend_from_slice(&rest[..rest.len() - 1]);
            wire.push(body.iter().fold(0u8, |a, b| a.wrapping_add(*b)).wrapping_neg());
            "first-block-short"
        }
    };
    k.fault(name);
    note = format!("{}, {}", note, name);
    Transfer { content: None, title, offset, wire, note }
}

#[derive(Clone, Debug)]
struct Seen {
    /// Bytes the receiver had of the session, and where the present transfer begins.
    have: usize,
    from: usize,
    got: Received,
}

#[derive(Default)]
struct FLog {
    seen: Vec<Seen>,
    inbound: Vec<u8>,
    /// The position given to the receiver moves on after a rejection only by hand.
    opened: bool,
    read_end: bool,
    read_err: bool,
    /// Bytes of the outbound transfers that a completed write accounts for.
    sent: usize,
    write_done: bool,
    write_err: bool,
    /// What goes out, in the order of writing.
    outbound: Vec<u8>,
    /// Messages that were compressed with codes of more than 16 bits.
    long_codes: u64,
    broken: Vec<(&'static str, String)>,
}

fn short(r: &Received) -> Vec<u8> {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let text = match r {
        Received::Incomplete(n) => format!("incomplete {:?}", n),
        Received::Rejected => "rejected".into(),
        Received::Accepted { consumed, title, offset, crc16, uncompressed_size, data, message } => {
            data.hash(&mut h);
            message.hash(&mut h);
            format!("accepted {} {:?} {} {:04x} {} {} {:?} {:016x}", consumed, title, offset, crc16, uncompressed_size, data.len(), message.as_ref().map(|m| m.as_ref().map(|m| m.len())), h.finish())
        }
    };
    text.into_bytes()
}

type LogRef = Rc<RefCell<FLog>>;

async fn reader(k: &Rc<Kernel>, log: &LogRef, s: &mut (impl AsyncReadExt + Unpin), big: bool) {
    let w = Lane::Work;
    let size = k.pick(w, &[4096usize, 64, 7, 1, 255, 300, 65536]);
    let size = if big { 16384 } else { size };
    let pause = k.pick(w, &[0, 0, 0, 30 * MILLI, 300 * MILLI]);
    let mut buf = vec![0; size];
    let mut from = 0;
    let mut stuck = false;
    loop {
        if pause > 0 && k.chance(w, 1, 8) {
            k.sleep(pause).await;
        }
        let r = s.read(&mut buf).await;
        let n = match r {
            Ok(0) => {
                log.borrow_mut().read_end = true;
                return;
            }
            Ok(n) => n,
            Err(_) => {
                log.borrow_mut().read_err = true;
                return;
            }
        };
        log.borrow_mut().inbound.extend_from_slice(&buf[..n]);
        while !stuck {
            let have = log.borrow().inbound.len();
            let part = log.borrow().inbound[from..].to_vec();
            if part.is_empty() && k.chance(w, 3, 4) {
                break;
            }
            let got = receive(&part, true);
            k.log(Ev::Did { what: "receive", key: have as u32, bytes: short(&got) });
            let step = match &got {
                Received::Accepted { consumed, .. } => Some(*consumed),
                Received::Rejected => {
                    stuck = true;
                    None
                }
                Received::Incomplete(_) => None,
            };
            log.borrow_mut().seen.push(Seen { have, from, got });
            match step {
                Some(n) => from += n,
                None => break,
            }
            if from >= have {
                break;
            }
        }
    }
}

async fn writer(k: &Rc<Kernel>, log: &LogRef, s: &mut (impl AsyncWriteExt + Unpin), wires: &[Vec<u8>]) {
    let w = Lane::Work;
    for b in wires {
        if k.chance(w, 1, 3) {
            k.sleep(k.range(w, 0, 20) * 20 * MILLI).await;
        }
        // In pieces or at once.
        let piece = k.pick(w, &[usize::MAX, usize::MAX, 100, 33]);
        for c in b.chunks(piece.min(b.len().max(1))) {
            if s.write_all(c).await.is_err() {
                log.borrow_mut().write_err = true;
                return;
            }
            log.borrow_mut().sent += c.len();
        }
    }
    if s.flush().await.is_err() {
        log.borrow_mut().write_err = true;
        return;
    }
    log.borrow_mut().write_done = true;
}

/// The transfers to send; the standard decoder has to get the messages out of them.
fn compress(k: &Rc<Kernel>, log: &LogRef, outbound: &[Content]) -> Vec<Vec<u8>> {
    let mut wires = Vec::new();
    for c in outbound {
        let only_check = c.what == "deep" && !c.large;
        let z = crate::hooks::encode(&c.bytes);
        k.log(Ev::Did { what: "encode", key: c.bytes.len() as u32, bytes: lzref::crc16(z.iter().copied()).to_le_bytes().to_vec() });
        let mut log = log.borrow_mut();
        match lzref::decode_deep(&z, c.bytes.len()) {
            Some((d, depth)) if d == c.bytes => {
                if depth > 16 {
                    log.long_codes += 1;
                }
            }
            Some((d, _)) => {
                let i = d.iter().zip(&c.bytes).position(|(a, b)| a != b).unwrap_or(d.len().min(c.bytes.len()));
                log.broken.push(("encoded-wrong", format!("a standard decoder gets a different message out of {} compressed bytes of {}, from byte {} on", c.bytes.len(), c.what, i)))
            }
            None => log.broken.push(("encoded-short", format!("a standard decoder finds the compressed form of {} bytes of {} too short", c.bytes.len(), c.what))),
        }
        if only_check {
            continue;
        }
        let mut wire = lzref::frame_header(b"out", b"0");
        wire.extend(lzref::frame_blocks(&lzref::body(c.bytes.len() as u32, &z), |_| 250));
        log.outbound.extend_from_slice(&wire);
        wires.push(wire);
    }
    wires
}

pub fn run(f: &Focus, tape: Tape) -> RunOut {
    let k = Kernel::new(tape);
    let _world = plusendi::sim::install(Some(k.clone()));
    let drawn_verbose = k.chance(Lane::Work, 1, 4);
    let verbose = f.verbose.unwrap_or(drawn_verbose);
    crate::vtrace::set(verbose);
    k.draw_policy();
    let w = Lane::Work;
    let l = Lane::Fault;
    let mut cfg = draw_cfg(&k, f, false);
    cfg.remote_bytes = 0;
    cfg.remote_ends = 0;
    cfg.wrong = 0;
    cfg.outcomes = [1, 0, 0, 0, 0];
    cfg.chatter = cfg.chatter.min(20);
    let breaks = k.chance(l, 1, if f.is(&["F04", "X02"]) { 3 } else { 6 });
    let faults = if breaks { draw_faults(&k, f) } else { Vec::new() };
    let big = k.chance(w, 1, if f.is(&["F04"]) { 128 } else { 400 }) && f.verbose.is_none() && !verbose;
    let long = !big && f.verbose.is_none() && !verbose && k.chance(w, 1, if f.is(&["F01", "F02"]) { 100 } else { 2000 });
    // ---- what is transferred
    let noisy = if f.is(&["F01", "F03"]) { 13 } else if f.is(&["F02", "F04"]) { 3 } else { 8 };
    let mut transfers = Vec::new();
    let mut junk = Vec::new();
    for _ in 0..if big || long { 1 } else { k.range(w, 1, 3) } {
        let damaged = k.chance(l, noisy, 16) && (!big || k.chance(l, 1, 4));
        let c = draw_content(&k, big);
        transfers.push(draw_transfer(&k, c, damaged || long, long));
    }
    if k.chance(l, 1, 12) {
        // Something else follows.
        junk = k.pick(l, &[&b"FF\r"[..], b"\0\0\0", b"\x01", b"\x04\x04", b"\x02\x05hello"]).to_vec();
        k.fault("trailing-bytes");
    }
    let mut outbound = Vec::new();
    for _ in 0..k.range(w, if f.is(&["F04"]) { 1 } else { 0 }, 2) {
        let c = draw_content(&k, big);
        outbound.push(c);
        if big {
            break;
        }
    }
    if f.is(&["F04"]) && f.verbose.is_none() && !verbose && k.chance(w, 1, 300) {
        let seed = k.choose(w, 1 << 20) as u64;
        outbound = vec![Content { bytes: deep(seed), what: "deep", large: false }];
    }
    let log: LogRef = Default::default();
    let tnc = Tnc::new(&k, cfg, faults);
    {
        let tnc = tnc.clone();
        k.set_dialer(move |k, addr: SocketAddr, ep| {
            let mut cfg = k.draw_net(true);
            let is_ctl = addr.port() == 8300;
            if !is_ctl {
                if cfg.split == 3 {
                    cfg.split = 1;
                }
                if big || long {
                    cfg.split = 0;
                    cfg.window = 65536;
                    cfg.partial_writes = false;
                }
            }
            let t = tnc.clone();
            k.after(0, move |k| {
                if k.is_closed(ep) {
                    return;
                }
                if is_ctl {
                    t.borrow_mut().attach_control(k, ep)
                } else {
                    t.borrow_mut().attach_data(k, ep)
                }
            });
            DialPlan { delay: 0, result: Ok((tnc.clone(), cfg)), line_end: b'\r' }
        });
    }
    // ---- the remote station sends
    let mut stream: Vec<u8> = Vec::new();
    for t in &transfers {
        stream.extend_from_slice(&t.wire);
    }
    stream.extend_from_slice(&junk);
    {
        let p = Lane::Peer;
        let gap = k.pick(p, &[0, 0, 3 * MILLI, 40 * MILLI, 400 * MILLI]);
        let style = if big || long { 0 } else { k.choose(p, 4) };
        let mut parts: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut rest = &stream[..];
        let mut piece = Rng(k.choose(p, 1 << 20) as u64);
        while !rest.is_empty() {
            let n = match style {
                0 => rest.len().min(4096),
                1 => 1 + piece.below(300),
                2 => transfers[0].wire.len().max(1),
                _ => 1 + piece.below(30),
            }
            .min(rest.len());
            parts.push((if gap == 0 { 0 } else { gap / 4 * piece.below(5) as u64 }, rest[..n].to_vec()));
            rest = &rest[n..];
        }
        let ends = k.chance(p, 1, 2);
        let cut = breaks && k.chance(l, 1, 3);
        let cut_at = k.range(l, 0, 40) * 30 * MILLI;
        let parts = RefCell::new(Some(parts));
        let t = Rc::downgrade(&tnc);
        tnc.borrow_mut().on_connected = Some(Rc::new(move |k, n, _, _| {
            let Some(t) = t.upgrade() else { return };
            if cut {
                let t = t.clone();
                k.after(cut_at, move |k| {
                    k.fault("remote-disconnect");
                    t.borrow_mut().down(k, n, true)
                });
            }
            play(k, t, n, parts.borrow_mut().take().unwrap_or_default().into(), ends);
        }));
    }
    // ---- our side
    {
        let (k2, log) = (k.clone(), log.clone());
        k.client("owner", async move {
            let wires = compress(&k2, &log, &outbound);
            let mut b = VaraTnc::builder();
            let Ok(mut v) = b.build().await else { return };
            let (from, to) = (StationId::new("KC1GSL").unwrap(), StationId::new("KW1U").unwrap());
            let hold = k2.range(w, 0, 4) * 100 * MILLI;
            let Ok(s) = v.connect(from, to).await else { return };
            log.borrow_mut().opened = true;
            let (mut r, mut wr) = split(s);
            both(reader(&k2, &log, &mut r, big || long), writer(&k2, &log, &mut wr, &wires)).await;
            k2.sleep(hold).await;
            let s = r.unsplit(wr);
            if k2.chance(w, 1, 2) {
                let _ = s.disconnect().await;
            }
        });
    }
    {
        let (k2, tnc) = (k.clone(), tnc.clone());
        k.client("supervisor", async move {
            let look = {
                let k = k2.clone();
                move || {
                    k.log(Ev::Note { text: "settled".into() });
                }
            };
            k2.settled(look.clone()).await;
            tnc.borrow_mut().recover(&k2);
            k2.settled(look.clone()).await;
            let link = tnc.borrow().link;
            if let Link::Connected(n) = link {
                tnc.borrow_mut().down(&k2, n, true);
            }
            k2.settled(look).await;
        });
    }
    k.run();
    let fatal = k.fatal();
    k.tear_down();
    plusendi::sim::install(None);
    crate::vtrace::set(false);
    {
        let mut t = tnc.borrow_mut();
        t.on_connected = None;
        t.on_data = None;
    }
    let mut out = RunOut::default();
    out.take(k.into_parts());
    for (c, t) in &log.borrow().broken {
        out.fail("F04", c, t.clone());
    }
    for t in &transfers {
        if t.content.is_some() {
            out.probe("undamaged-transfer");
        } else {
            out.probe("damaged-transfer");
        }
    }
    if log.borrow().long_codes > 0 {
        out.probe("codes-of-17-bits-written");
    }
    if long {
        out.probe("more-than-64k");
    }
    if big {
        out.probe("tree-rebuild");
    }
    check(&mut out, &log.borrow(), &tnc.borrow(), &transfers, &stream, fatal, breaks);
    out
}

/// The remote station ends the session once the modem has handed over all it sent.
fn end(k: &Rc<Kernel>, t: TncRef, n: usize, tries: u32) {
    let over = t.borrow().data.map_or(true, |e| k.is_closed(e) || k.arrived(e) >= k.sent_total(e)) || tries == 0;
    if over || t.borrow().link != Link::Connected(n) {
        t.borrow_mut().down(k, n, true);
        return;
    }
    k.after(20 * MILLI, move |k| end(k, t, n, tries - 1));
}

pub fn play(k: &Rc<Kernel>, t: TncRef, n: usize, mut left: std::collections::VecDeque<(u64, Vec<u8>)>, ends: bool) {
    let Some((d, bytes)) = left.pop_front() else {
        if ends {
            end(k, t, n, 400);
        }
        return;
    };
    k.after(d, move |k| {
        if t.borrow().link != Link::Connected(n) {
            return;
        }
        t.borrow_mut().send_data(k, &bytes);
        play(k, t, n, left, ends);
    });
}

#[allow(clippy::too_many_arguments)]
fn check(out: &mut RunOut, log: &FLog, t: &Tnc, transfers: &[Transfer], stream: &[u8], fatal: bool, breaks: bool) {
    if !stream.starts_with(&log.inbound) {
        out.fail("F04", "altered", "the session delivered something else than the remote station sent".to_string());
        return;
    }
    let mut accepted = 0;
    let mut done = true;
    // Transfers and where they begin, while everything before was proper.
    let mut start = 0;
    let mut starts = Vec::new();
    for t in transfers {
        starts.push(start);
        start += t.wire.len();
    }
    let mut judged: Option<(usize, Judged)> = None;
    for s in &log.seen {
        // What there is to judge: all that ever came.
        if judged.as_ref().map_or(true, |j| j.0 != s.from) {
            judged = Some((s.from, lzref::judge(&stream[s.from..])));
        }
        let j = &judged.as_ref().unwrap().1;
        let have = s.have - s.from;
        let which = starts.iter().position(|x| *x == s.from);
        let note = which.map_or("other bytes".to_string(), |i| transfers[i].note.clone());
        let proper = |m: &lzref::Message| m.clone();
        match &s.got {
            Received::Incomplete(hint) => {
                match j {
                    Judged::Good(m) | Judged::Hollow(m) => {
                        if have >= m.consumed {
                            out.fail("F02", "not-finished", format!("with all {} bytes of a transfer ({}) the receiver still reports it as incomplete", m.consumed, note));
                        } else if hint.map_or(false, |h| h > m.consumed - have) {
                            out.fail("F02", "asks-too-much", format!("with {} of {} bytes of a transfer ({}) the receiver asks for {} more", have, m.consumed, note, hint.unwrap()));
                        }
                    }
                    Judged::Bad { late: Some(late), .. } if have >= *late => {
                        out.fail("F01", "waits", format!("with {} bytes of a damaged transfer ({}), damaged by byte {}, the receiver still waits", have, note, late));
                    }
                    _ => {}
                }
                out.probe("incomplete");
            }
            Received::Rejected => {
                match j {
                    Judged::Good(m) if have < m.consumed => out.fail("F02", "bad-early", format!("with {} of {} bytes of a proper transfer ({}) the receiver rejects it", have, m.consumed, note)),
                    Judged::Good(m) => {
                        let text = format!("a proper transfer of {} bytes ({}) was rejected", m.consumed, note);
                        if which.map_or(false, |i| transfers[i].content.is_some()) {
                            out.fail("F04", "proper-rejected", text.clone());
                        }
                        out.fail("F02", "proper-rejected", text.clone());
                        out.fail("F01", "proper-rejected", text)
                    }
                    Judged::Bad { early, .. } if have < *early => out.fail("F02", "bad-early", format!("the receiver rejects the {} bytes it has although they may begin a proper transfer ({})", have, note)),
                    Judged::Open => out.fail("F02", "bad-early", format!("the receiver rejects the {} bytes it has although they may begin a proper transfer ({})", have, note)),
                    Judged::Hollow(m) if have < m.consumed => out.fail("F02", "bad-early", format!("the receiver rejects the {} bytes it has although they may begin a proper transfer ({})", have, note)),
                    _ => {}
                }
                done = false;
                out.probe("rejected");
            }
            Received::Accepted { consumed, title, offset, crc16, uncompressed_size, data, message } => {
                let m = match j {
                    Judged::Good(m) | Judged::Hollow(m) => proper(m),
                    _ => {
                        out.fail("F01", "damaged-accepted", format!("a damaged transfer ({}) was accepted with {} bytes", note, consumed));
                        break;
                    }
                };
                if have < m.consumed {
                    out.fail("F01", "accepted-early", format!("a transfer of {} bytes ({}) was accepted with {} bytes", m.consumed, note, have));
                }
                if *consumed != m.consumed {
                    out.fail("F02", "end", format!("a transfer of {} bytes ({}) was taken to end after {}", m.consumed, note, consumed));
                }
                let same = title.as_bytes() == &m.title[..] && *offset == m.offset && *uncompressed_size == m.size && *data == m.data && *crc16 == m.crc;
                if !same {
                    out.fail("F01", "contents", format!("accepted: title {:?}, offset {}, size {}, {} bytes; framed: {:?}, {}, {}, {} ({})", title, offset, uncompressed_size, data.len(), String::from_utf8_lossy(&m.title), m.offset, m.size, m.data.len(), note));
                }
                let proper = lzref::decode(&m.data, m.size as usize);
                match (message, &proper) {
                    (Some(Some(d)), _) if d.len() != m.size as usize => out.fail("F03", "length", format!("{} bytes came out where {} were declared ({})", d.len(), m.size, note)),
                    (Some(Some(_)), None) => out.fail("F03", "no-error", format!("a payload that ends too early gave a message ({})", note)),
                    (Some(None), Some(_)) => out.fail("F03", "error", format!("a payload that holds all it declares gave an end-of-data error ({})", note)),
                    _ => {}
                }
                if let Some(i) = which {
                    let t = &transfers[i];
                    if let Some(c) = &t.content {
                        if title.as_bytes() != &t.title[..] || *offset != t.offset {
                            out.fail("F04", "header", format!("title {:?} and offset {} arrived for {:?} and {}", title, offset, String::from_utf8_lossy(&t.title), t.offset));
                        }
                        if let Some(Some(d)) = message {
                            if d != c {
                                let i = d.iter().zip(c).position(|(a, b)| a != b).unwrap_or(d.len().min(c.len()));
                                out.fail("F04", "message", format!("a message ({}) arrived different from byte {} on", note, i));
                            }
                        } else {
                            out.fail("F04", "message", format!("a message ({}) did not arrive", note));
                        }
                        accepted += 1;
                    }
                }
                out.probe("accepted");
                if proper.is_none() {
                    out.probe("payload-too-short");
                }
            }
        }
    }
    if !log.outbound.starts_with(&t.data_in) {
        out.fail("F04", "outbound-altered", "the remote station got something else than was written".to_string());
    }
    if fatal || !log.opened {
        return;
    }
    let quiet_link = !breaks && t.lost_idx.is_none() && t.data_lost_idx.is_none();
    if quiet_link {
        // The remote station may end the session while writes are still on their way.
        let sent_all = t.data_out.len() == stream.len();
        if !sent_all || log.inbound.len() < stream.len() || log.read_err {
            out.fail("F04", "lost", format!("{} of {} bytes were delivered on an undisturbed link", log.inbound.len(), stream.len()));
        }
        let clean = transfers.iter().take_while(|t| t.content.is_some()).count();
        if accepted < clean && done {
            out.fail("F04", "missing", format!("only {} of {} messages arrived", accepted, clean));
        }
        if t.data_in.len() < log.sent {
            out.fail("F04", "outbound-lost", format!("{} bytes were written but {} reached the remote station", log.sent, t.data_in.len()));
        }
        if log.write_done {
            out.probe("outbound-complete");
        }
    }
    out.nontrivial = out.switches > 10 && !log.seen.is_empty();
}
