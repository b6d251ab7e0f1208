//! Records runs of the real parser: streams x chunkings x polling schedules x
//! buffers.  One NDJSON record per run (or per stream, for deduplicated
//! segments); judged by spec/TraceParser.tla.
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::mem::ManuallyDrop;
use ublox::{FixedLinearBuffer, Parser, ParserError, PacketRef, UnderlyingBuffer};
use vharness::*;

/// one step of a schedule
#[derive(Clone, Debug)]
struct Chunk {
    n: usize,
    /// None: poll to exhaustion (and `extra` times more); Some(k): k results at most, then drop
    polls: Option<usize>,
    extra: usize,
}

struct RunOut {
    ev: String,
    failed: bool,
}

fn result_event(out: &mut String, r: &Option<Result<PacketRef, ParserError>>) {
    match r {
        None => out.push_str("[\"n\"]"),
        Some(Ok(p)) => {
            let (class, id) = p.class_and_msg_id();
            let (_, payload) = name_and_payload(p);
            let _ = write!(out, "[\"p\",{},{},", class, id);
            jbytes(out, payload);
            out.push(']');
        },
        Some(Err(ParserError::InvalidChecksum { expect, got })) => {
            let _ = write!(out, "[\"k\",{},{}]", expect, got);
        },
        Some(Err(ParserError::OutOfMemory { required_size })) => {
            let _ = write!(out, "[\"m\",{}]", required_size);
        },
        Some(Err(e)) => {
            out.push_str("[\"o\",");
            jstr(out, &format!("{:?}", e));
            out.push(']');
        },
    }
}

fn push_panic(ev: &mut String, what: &str, msg: &str) {
    ev.push_str(",[\"x\",");
    jstr(ev, what);
    ev.push(',');
    jstr(ev, msg);
    ev.push(']');
}

/// One consume() with its polling, up to and including the drop of the
/// iterator.  Appends the results to `res`; false after a panic.
fn one_chunk<T: UnderlyingBuffer>(
    parser: &mut Parser<T>,
    new: &[u8],
    c: &Chunk,
    res: &mut String,
) -> bool {
    let limit = parser.buffer_len() + c.n + 8;
    let mut it = match guarded(|| parser.consume(new)) {
        Ok(it) => ManuallyDrop::new(it),
        Err(m) => {
            push_panic(res, "consume", &m);
            return false;
        },
    };
    let mut count = 0;
    let mut after_none = 0;
    while c.polls.map_or(true, |k| count < k) {
        let mut one = String::new();
        let r = guarded(|| {
            let r = it.next();
            result_event(&mut one, &r);
            r.is_none()
        });
        match r {
            Err(m) => {
                push_panic(res, "next", &m);
                return false;
            },
            Ok(none) => {
                res.push(',');
                res.push_str(&one);
                count += 1;
                if none {
                    after_none += 1;
                    if after_none > c.extra {
                        break;
                    }
                }
                if count > limit {
                    push_panic(res, "next", "runaway: more results than bytes");
                    return false;
                }
            },
        }
    }
    if let Err(m) = guarded(|| unsafe { ManuallyDrop::drop(&mut it) }) {
        push_panic(res, "drop", &m);
        return false;
    }
    true
}

/// Runs one schedule; returns the events (JSON list without the brackets).
/// on_chunk is told (from, to, results, len after) for each completed chunk.
/// The first `given` bytes are in the buffer the parser was made with: as if a
/// first iterator over them had been dropped at once.
fn run<T: UnderlyingBuffer>(
    parser: &mut Parser<T>,
    given: usize,
    stream: &[u8],
    chunks: &[Chunk],
    mut on_chunk: impl FnMut(usize, usize, &str, usize),
) -> RunOut {
    let mut ev = String::new();
    let mut pos = 0;
    for c in chunks {
        let a = pos;
        pos += c.n;
        if !ev.is_empty() {
            ev.push(',');
        }
        let _ = write!(ev, "[\"c\",{}]", c.n);
        let mut res = String::new();
        let ok = (a == 0 && given > 0) || one_chunk(parser, &stream[a..pos], c, &mut res);
        ev.push_str(&res);
        if !ok {
            return RunOut { ev, failed: true };
        }
        let len = parser.buffer_len();
        let _ = write!(ev, ",[\"d\",{},{}]", len, parser.is_buffer_empty() as u8);
        on_chunk(a, pos, &res, len);
    }
    RunOut { ev, failed: false }
}

fn with_buffer(
    buf: &str,
    cap: usize,
    stream: &[u8],
    chunks: &[Chunk],
) -> RunOut {
    // every other time, a first chunk which is not polled is put into the buffer
    // before the parser is made
    let given = match chunks {
        [c, ..] if c.polls == Some(0) && (buf == "vec" || c.n <= cap) && (stream.len() + c.n) % 2 == 0 => c.n,
        _ => 0,
    };
    fn fill<T: UnderlyingBuffer>(mut b: T, bytes: &[u8]) -> T {
        if !bytes.is_empty() {
            let _ = guarded(|| b.extend_from_slice(bytes));
        }
        b
    }
    let first = &stream[..given];
    match buf {
        "vec" if given > 0 => run(&mut Parser::new(first.to_vec()), given, stream, chunks, |_, _, _, _| {}),
        "vec" => run(&mut Parser::<Vec<u8>>::default(), 0, stream, chunks, |_, _, _, _| {}),
        "flb" => {
            let mut store = vec![0xCCu8; cap];
            let b = fill(FixedLinearBuffer::new(&mut store), first);
            run(&mut Parser::new(b), given, stream, chunks, |_, _, _, _| {})
        },
        "off" => run(&mut Parser::new(fill(OffsetBuf::new(cap), first)), given, stream, chunks, |_, _, _, _| {}),
        "cap" => run(&mut Parser::new(fill(CappedVec::new(cap), first)), given, stream, chunks, |_, _, _, _| {}),
        _ => unreachable!(),
    }
}

fn head(stream: &[u8], cap: i64, buf: &str) -> String {
    let mut s = String::from("{\"s\":");
    jbytes(&mut s, stream);
    let _ = write!(s, ",\"cap\":{},\"buf\":\"{}\"", cap, buf);
    s
}

struct Job {
    budget_events: usize,
    used: usize,
    runs: u64,
    seen: BTreeSet<u64>,
    /// also record what the code yields for the whole stream at once (C01)
    whole: bool,
}

/// Results and length kept when the stream is fed in one chunk.
fn whole(stream: &[u8]) -> String {
    let mut p = Parser::<Vec<u8>>::default();
    let chunk = Chunk { n: stream.len(), polls: None, extra: 0 };
    let mut res = String::new();
    one_chunk(&mut p, stream, &chunk, &mut res);
    format!(",\"w\":[{}],\"wl\":{}", results_only(&res), p.buffer_len())
}

/// the results without the final None
fn results_only(res: &str) -> &str {
    let r = res.strip_prefix(',').unwrap_or(res);
    let r = r.strip_suffix("[\"n\"]").unwrap_or(r);
    r.strip_suffix(',').unwrap_or(r)
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Job {
    fn trace(&mut self, stream: &[u8], cap: i64, buf: &str, chunks: &[Chunk]) {
        let mut h = head(stream, cap, buf);
        set_current(format!("{},\"ev\":[[\"h\",\"{:?}\"]]}}", h, chunks.len()));
        if self.whole {
            h.push_str(&whole(stream));
        }
        let o = with_buffer(buf, cap.max(0) as usize, stream, chunks);
        self.runs += 1;
        let line = format!("{},\"ev\":[{}]}}", h, o.ev);
        if self.seen.insert(fnv(&line)) {
            self.used += o.ev.matches('[').count();
            emit(&line);
        }
        set_current(String::new());
        let _ = o.failed;
    }

    /// All given schedules of one stream over Vec, fully drained, recorded as
    /// the set of distinct segments (from, to, results, length kept).
    fn segments(&mut self, stream: &[u8], schedules: &mut dyn Iterator<Item = Vec<usize>>) {
        let mut h = head(stream, -1, "vec");
        set_current(format!("{},\"ev\":[[\"h\",\"segments\"]]}}", h));
        if self.whole {
            h.push_str(&whole(stream));
        }
        let mut segs: BTreeSet<(usize, usize, String, usize, usize)> = BTreeSet::new();
        let mut nsched = 0u64;
        for sched in schedules {
            let chunks: Vec<Chunk> = sched
                .iter()
                .map(|n| Chunk { n: *n, polls: None, extra: 0 })
                .collect();
            let mut p = Parser::<Vec<u8>>::default();
            let mut before = 0;
            let o = run(&mut p, 0, stream, &chunks, |a, b, res, len| {
                segs.insert((a, b, results_only(res).to_string(), len, before));
                before += results_only(res).matches("[\"").count();
            });
            self.runs += 1;
            nsched += 1;
            if o.failed {
                emit(&format!("{},\"ev\":[{}]}}", h, o.ev));
                break;
            }
        }
        let mut line = format!("{},\"sched\":{},\"seg\":[", h, nsched);
        for (i, (a, b, r, len, before)) in segs.iter().enumerate() {
            if i > 0 {
                line.push(',');
            }
            let _ = write!(line, "[{},{},[{}],{},{}]", a, b, r, len, before);
        }
        line.push_str("]}");
        self.used += segs.len() * 2;
        emit(&line);
        set_current(String::new());
    }
    fn more(&self) -> bool {
        self.used < self.budget_events
    }
}

// ---------------------------------------------------------------- streams
fn payload(r: &mut Rng, n: usize, style: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match style {
        0 => (0..n).map(|_| r.byte()).collect(),
        1 => (0..n).map(|_| *r.pick(&[0xb5, 0x62, 0x00, 0x01, 0xff])).collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { 0xb5 } else { 0x62 }).collect(),
        3 => vec![0; n],
        4 => vec![0xb5; n],
        6 => vec![0xff; n],
        _ => {
            // embeds a whole small frame when there is room
            let inner = frame(r.byte(), r.byte(), &[]);
            let mut v: Vec<u8> = (0..n).map(|_| r.byte()).collect();
            if n >= inner.len() {
                let at = r.below(n - inner.len() + 1);
                v[at..at + inner.len()].copy_from_slice(&inner);
            }
            v
        },
    };
    if r.chance(1, 6) && n >= 1 {
        v[n - 1] = 0xb5;
    }
    v
}

fn some_ids(r: &mut Rng) -> (u8, u8) {
    match r.below(5) {
        0 => (r.byte(), r.byte()),
        1 => (0x05, r.below(2) as u8),
        2 => (0x01, *r.pick(&[2, 3, 4, 7, 0x61, 0x35])),
        3 => (0xb5, 0x62),
        _ => (0x62, 0xb5),
    }
}

fn a_frame(r: &mut Rng, maxpay: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4 => 28,
        _ => r.below(maxpay + 1),
    }
    .min(maxpay);
    let (mut c, mut i) = some_ids(r);
    if n == 2 && r.chance(1, 2) {
        c = 5;
        i = 1;
    }
    let style = r.below(6);
    frame(c, i, &payload(r, n, style))
}

fn token(r: &mut Rng, maxpay: usize) -> Vec<u8> {
    match r.below(23) {
        0..=7 => a_frame(r, maxpay),
        8 => {
            // wrong checksum, one of the two bytes, or swapped
            let mut f = a_frame(r, maxpay);
            let n = f.len();
            match r.below(4) {
                0 => f[n - 1] = f[n - 1].wrapping_add(1 + r.below(255) as u8),
                1 => f[n - 2] = f[n - 2].wrapping_add(1 + r.below(255) as u8),
                2 => f.swap(n - 1, n - 2),
                _ => {
                    f[n - 1] = r.byte();
                    f[n - 2] = r.byte();
                },
            }
            f
        },
        9 => {
            // one damaged byte anywhere
            let mut f = a_frame(r, maxpay);
            let i = r.below(f.len());
            f[i] ^= 1 << r.below(8);
            f
        },
        10 => {
            // truncated frame
            let f = a_frame(r, maxpay);
            let k = r.range(1, f.len() - 1);
            f[..k].to_vec()
        },
        11 => {
            // a header that declares too much
            let n: u16 = *r.pick(&[8177, 8178, 8192, 0x4000, 0x8000, 0xb562, 0x62b5, 0xffff, 0x2000]);
            let mut v = vec![0xb5, 0x62, r.byte(), r.byte()];
            v.extend_from_slice(&n.to_le_bytes());
            v
        },
        12 => vec![0xb5],
        13 => vec![0xb5, r.byte()],
        14 => vec![0xb5; r.range(1, 4)],
        15 => vec![0x62; r.range(1, 3)],
        16 => b"$GN,1\r\n".to_vec(),
        17 => {
            let n = r.range(1, 6);
            (0..n).map(|_| r.byte()).collect()
        },
        18 => {
            // the length byte pair straddles a sync pattern
            vec![0xb5, 0x62, 0x01, 0xb5, 0x62, 0xb5, 0x62]
        },
        19 => {
            // sync pattern hidden in class/id
            let mut f = frame(0xb5, 0x62, &[]);
            f.extend(frame(5, 1, &[0xb5, 0x62]));
            f
        },
        20 => {
            // a bad frame whose body holds an intact one
            let inner = a_frame(r, 4);
            let mut f = frame(r.byte(), r.byte(), &inner);
            let n = f.len();
            f[n - 1] ^= 0x55;
            f
        },
        21 => {
            // a frame that starts inside the header of a false candidate, so that
            // its class and id (or its sync byte and class) are that one's length
            let mut v = vec![0xb5, 0x62];
            if r.chance(1, 2) {
                v.extend(frame(r.byte() / 2, 0, &[]));
            } else {
                v.push(r.byte());
                v.extend(frame(0, r.byte(), &[]));
            }
            if r.chance(1, 2) {
                let n = r.below(60);
                v.extend((0..n).map(|_| 7u8));
            }
            v
        },
        _ => {
            // a candidate cut short by an intact frame
            let n = r.range(1, 12);
            let mut v = vec![0xb5, 0x62, r.byte(), r.byte(), n as u8, 0];
            v.extend((0..r.below(n)).map(|_| 7u8));
            v.extend(a_frame(r, 3));
            v
        },
    }
}

fn stream(r: &mut Rng, tokens: usize, maxpay: usize, maxlen: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..tokens {
        v.extend(token(r, maxpay));
    }
    v.truncate(maxlen);
    v
}

// -------------------------------------------------------------- chunkings
fn cuts_from_mask(n: usize, mask: u64) -> Vec<usize> {
    let mut out = vec![];
    let mut cur = 1;
    for i in 0..n.saturating_sub(1) {
        if mask >> i & 1 == 1 {
            out.push(cur);
            cur = 1;
        } else {
            cur += 1;
        }
    }
    if n > 0 {
        out.push(cur);
    }
    out
}

fn random_cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let style = r.below(5);
    let mut out = vec![];
    let mut left = n;
    while left > 0 {
        let k = match style {
            0 => 1,
            1 => r.range(1, 3),
            2 => r.range(1, 12),
            3 => r.range(1, left),
            _ => r.range(1, 40),
        }
        .min(left);
        out.push(k);
        left -= k;
        if r.chance(1, 12) {
            out.push(0);
        }
    }
    out
}

fn full(cuts: &[usize], r: &mut Rng) -> Vec<Chunk> {
    cuts.iter()
        .map(|n| Chunk { n: *n, polls: None, extra: if r.chance(1, 8) { 2 } else { 0 } })
        .collect()
}

fn lazy(cuts: &[usize], r: &mut Rng) -> Vec<Chunk> {
    let mut v: Vec<Chunk> = cuts
        .iter()
        .map(|n| Chunk {
            n: *n,
            polls: match r.below(4) {
                0 => None,
                1 => Some(0),
                _ => Some(r.below(3)),
            },
            extra: 0,
        })
        .collect();
    v.push(Chunk { n: 0, polls: None, extra: 1 });
    v
}

fn gen_streams(path: &str) -> Vec<Vec<u8>> {
    // one JSON array of integers per line, written by TLC
    let text = std::fs::read_to_string(path).expect("streams file");
    text.lines()
        .filter(|l| l.contains('['))
        .map(|l| {
            l.chars()
                .map(|c| if c.is_ascii_digit() { c } else { ' ' })
                .collect::<String>()
                .split_whitespace()
                .map(|x| x.parse::<u16>().unwrap() as u8)
                .collect()
        })
        .collect()
}

/// frames near the length limits
fn limit_streams(r: &mut Rng) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for n in [8176usize, 8175, 8177, 4096, 2000] {
        let st = *r.pick(&[0, 1, 5]);
        let mut v = stream(r, 1, 8, 20);
        v.extend(frame(2, 0x15, &payload(r, n, st)));
        v.extend(frame(5, 1, &[6, 1]));
        out.push(v);
    }
    // the largest sums a checksum can meet
    for n in [8176usize, 1024, 255] {
        let mut v = frame(2, 0x15, &payload(r, n, 6));
        v.extend(frame(5, 1, &[6, 1]));
        out.push(v);
    }
    let mut f = frame(2, 0x15, &payload(r, 8176, 0));
    let n = f.len();
    f[n - 1] ^= 1;
    f.extend(frame(5, 0, &[6, 1]));
    out.push(f);
    out
}

/// many frames, more than a parser would ever have to keep
fn long_streams(r: &mut Rng, thorough: bool) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for (count, n) in [(40usize, 300usize), (12, 1500)].into_iter().chain(if thorough { vec![(9, 8100), (500, 20)] } else { vec![(9, 8100)] }) {
        let mut v = vec![];
        for k in 0..count {
            let st = if k % 3 == 0 { 0 } else { 3 };
            v.extend(frame(1, 0x60 + (k % 16) as u8, &payload(r, n, st)));
            if n > 8000 && k % 4 == 3 {
                // the eighth ends beyond 64 KiB
                let l = v.len();
                v[l - 2] ^= 0x40;
            }
        }
        v.extend(frame(5, 1, &[6, 1]));
        v.extend(&frame(5, 1, &[6, 1])[..r.range(1, 9)]);
        out.push(v);
    }
    out
}

fn main() {
    let prop = arg("--prop").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let thorough = arg("--tier").as_deref() == Some("thorough");
    open_out(&arg("--out").unwrap());
    start_watchdog();
    let mut r = Rng::new(seed ^ fnv(&prop));
    let scale = if thorough { 5 } else { 1 };
    let mut j = Job { budget_events: 200_000 * scale, used: 0, runs: 0, seen: BTreeSet::new(), whole: prop == "C01" };
    let given = arg("--streams").map(|p| gen_streams(&p)).unwrap_or_default();

    if let Some(n) = arg("--few") {
        // little, for an interpreted build: growable (C03), bounded (C05), dropped (C26)
        let n: usize = n.parse().unwrap();
        let mut streams = given;
        for k in 0..n {
            let (t, mp, ml) = if k % 2 == 0 { (r.range(1, 5), 12, 60) } else { (r.range(2, 12), 60, 300) };
            streams.push(stream(&mut r, t, mp, ml));
        }
        for (k, s) in streams.iter().enumerate() {
            let cuts = random_cuts(&mut r, s.len());
            match prop.as_str() {
                "C03" => {
                    let ch = if k % 2 == 0 { full(&cuts, &mut r) } else { lazy(&cuts, &mut r) };
                    j.trace(s, -1, "vec", &ch);
                },
                "C05" => {
                    let ch = full(&cuts, &mut r);
                    j.trace(s, *r.pick(&[8i64, 9, 10, 12, 16, 30, 64, 100]), *r.pick(&["flb", "flb", "off", "cap"]), &ch);
                },
                _ => {
                    let ch = lazy(&cuts, &mut r);
                    j.trace(s, *r.pick(&[4i64, 8, 9, 12, 16, 40]), *r.pick(&["flb", "flb", "off", "cap"]), &ch);
                },
            }
        }
        close_out();
        println!("{{\"runs\":{},\"events\":{}}}", j.runs, j.used);
        return;
    }

    if prop == "C26" {
        // iterators dropped at any time, over any buffer
        for s in &given {
            let cap = *r.pick(&[4usize, 7, 8, 9, 10, 12, 16]);
            let cuts = random_cuts(&mut r, s.len());
            let ch = lazy(&cuts, &mut r);
            j.trace(s, cap as i64, *r.pick(&["flb", "off", "cap"]), &ch);
        }
        j.budget_events += j.used;
        for k in 0..if thorough { 8 } else { 2 } {
            let s = stream(&mut r, 300, 24, 5_000);
            let cuts = random_cuts(&mut r, s.len());
            let ch = lazy(&cuts, &mut r);
            j.trace(&s, if k % 2 == 0 { 100 } else { -1 }, if k % 2 == 0 { "flb" } else { "vec" }, &ch);
        }
        while j.more() {
            let (t, mp, ml) = if r.chance(1, 2) { (r.range(1, 6), 12, 60) } else { (r.range(3, 14), 40, 300) };
            let s = stream(&mut r, t, mp, ml);
            for _ in 0..4 {
                let (cap, buf) = match r.below(7) {
                    0 => (-1, "vec"),
                    6 => (r.below(8) as i64, *r.pick(&["flb", "off", "cap"])),
                    1 => (r.range(8, 12) as i64, "flb"),
                    2 => (r.range(8, 200) as i64, "cap"),
                    3 => (r.range(8, 60) as i64, "off"),
                    _ => (r.range(8, 60) as i64, "flb"),
                };
                let cuts = random_cuts(&mut r, s.len());
                let ch = lazy(&cuts, &mut r);
                j.trace(&s, cap, buf, &ch);
            }
        }
        close_out();
        println!("{{\"runs\":{},\"events\":{}}}", j.runs, j.used);
        return;
    }

    let vec_family = matches!(prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C06" | "C07");
    let bounded = matches!(prop.as_str(), "C02" | "C04" | "C05" | "C06" | "C07");

    // 1. streams enumerated by TLC: every prefix/suffix cut once
    for s in &given {
        if vec_family {
            let n = s.len();
            let mut r2 = Rng::new(r.next());
            let mut it = std::iter::once(vec![n])
                .chain(std::iter::once(vec![1; n]))
                .chain((1..n).map(move |i| vec![i, n - i]))
                .chain((0..2).map(move |_| random_cuts(&mut r2, n)));
            j.segments(s, &mut it);
        }
        if bounded {
            let cap = *r.pick(&[8usize, 9, 10, 11, 12, 14, 16, 20]);
            let buf = *r.pick(&["flb", "off", "cap"]);
            let cuts = random_cuts(&mut r, s.len());
            let ch = full(&cuts, &mut r);
            j.trace(s, cap as i64, buf, &ch);
        }
    }
    let base = j.used;
    j.budget_events += base;

    // 2. all chunkings of short streams (2^(n-1) schedules each)
    if vec_family {
        let (count, n) = if thorough { (60, 15) } else if prop == "C01" { (24, 13) } else { (8, 11) };
        for _ in 0..count {
            let mut s = stream(&mut r, 3, 4, n);
            while s.len() < n {
                s.extend(token(&mut r, 3));
            }
            s.truncate(n);
            j.segments(&s, &mut (0..1u64 << (n - 1)).map(|m| cuts_from_mask(n, m)));
        }
    }
    // 3. frames at the length limits
    if vec_family {
        let reps = if thorough { 3 } else { 1 };
        for _ in 0..reps {
            for s in limit_streams(&mut r) {
                let n = s.len();
                let cut = r.range(1, n - 1);
                j.segments(&s, &mut vec![vec![n], vec![cut, n - cut]].into_iter());
            }
        }
    }
    if matches!(prop.as_str(), "C02" | "C04" | "C05" | "C07") {
        // more than 64 KiB at once and in a buffer
        let s = long_streams(&mut r, false).pop().unwrap();
        let n = s.len();
        for (cap, buf, cuts) in [(8_500, "flb", vec![n]), (80_000, "off", vec![n / 9; 10]), (n as i64 + 9, "flb", vec![n - 9, 9]), (-1, "vec", vec![n - 4, 4])] {
            if cap < 0 && prop == "C05" {
                continue;
            }
            let mut left = n;
            let mut ch: Vec<Chunk> = cuts
                .iter()
                .map(|c| {
                    let c = (*c).min(left);
                    left -= c;
                    // nothing is given up while all fits
                    Chunk { n: c, polls: if cap > n as i64 { Some(0) } else { None }, extra: 1 }
                })
                .collect();
            ch.push(Chunk { n: left, polls: None, extra: 1 });
            j.trace(&s, cap, buf, &ch);
        }
    }
    if matches!(prop.as_str(), "C01" | "C03" | "C06" | "C07") {
        // iterators dropped while a lot is pending
        for s in long_streams(&mut r, thorough) {
            let n = s.len();
            for (cuts, polls) in [(vec![n], 2), (vec![n - 1, 1], 0), (vec![n / 3, n - n / 3], 1)] {
                let mut ch: Vec<Chunk> = cuts.iter().map(|n| Chunk { n: *n, polls: Some(polls), extra: 0 }).collect();
                ch.push(Chunk { n: 0, polls: None, extra: 1 });
                j.trace(&s, -1, "vec", &ch);
            }
        }
    }
    // false candidates whose header holds the start of a frame, in every buffer
    // that is too small for them, cut everywhere
    if prop == "C05" {
        let lens: &[usize] = if thorough { &[10, 24, 40, 98] } else { &[24, 98] };
        for (&l, sound) in lens.iter().flat_map(|l| [(l, false), (l, true)]) {
            let mut s = vec![0xb5, 0x62];
            if l == 98 {
                s.push(0x40);
                s.extend(frame(0, 0x61, &[]));
            } else {
                s.extend(frame(l as u8, 0, &[]));
            }
            s.resize(6 + l, if sound { 3 } else { 0 });
            if sound {
                // the outer candidate is a well-formed frame, too
                let (mut a, mut b) = (0u8, 0u8);
                for x in &s[2..] {
                    a = a.wrapping_add(*x);
                    b = b.wrapping_add(a);
                }
                s.extend([a, b]);
            } else {
                s.extend([0, 0]);
            }
            s.extend(frame(5, 1, &[6, 1]));
            let step = if thorough { 1 } else { l / 12 };
            for cap in (9..=l + 9).step_by(step) {
                for cut in (1..s.len()).step_by(if l == 98 && !thorough { 5 } else { 1 }) {
                    let ch = full(&[cut, s.len() - cut], &mut r);
                    j.trace(&s, cap as i64, if cut % 4 == 0 { "cap" } else { "flb" }, &ch);
                }
            }
        }
    }
    if bounded {
        for s in limit_streams(&mut r) {
            let n = s.len();
            for cap in [64usize, n, n - 12, 8184, 8183, 4104] {
                let cut = r.range(1, n - 1);
                let ch = full(&[cut, n - cut], &mut r);
                j.trace(&s, cap as i64, "flb", &ch);
            }
        }
    }
    // one parser over a long history: hundreds of frames, errors and refills
    for k in 0..if thorough { 6 } else { 2 } {
        let s = stream(&mut r, 700, 24, 12_000);
        let cuts = random_cuts(&mut r, s.len());
        if vec_family {
            let ch = if k % 2 == 0 { full(&cuts, &mut r) } else { lazy(&cuts, &mut r) };
            j.trace(&s, -1, "vec", &ch);
        }
        if bounded {
            let cap = *r.pick(&[16usize, 40, 100, 257, 300, 1024]);
            let ch = full(&cuts, &mut r);
            j.trace(&s, cap as i64, if k % 2 == 0 { "flb" } else { "off" }, &ch);
        }
    }
    let base = j.used;
    j.budget_events += base;
    // 4. random traces
    while j.more() {
        let small = r.chance(1, 2);
        let (t, mp, ml) = if small { (r.range(1, 5), 12, 60) } else { (r.range(2, 12), 60, 300) };
        let s = stream(&mut r, t, mp, ml);
        if vec_family {
            for _ in 0..3 {
                let cuts = random_cuts(&mut r, s.len());
                let ch = if r.chance(1, 2) { full(&cuts, &mut r) } else { lazy(&cuts, &mut r) };
                j.trace(&s, -1, "vec", &ch);
            }
        }
        if bounded {
            for _ in 0..4 {
                let cap = match r.below(4) {
                    0 if prop == "C06" && r.chance(1, 2) => r.below(8),
                    0 => r.range(8, 16),
                    1 => r.range(8, 40),
                    2 => r.range(16, 80),
                    _ => r.range(8, 200),
                };
                let buf = *r.pick(&["flb", "flb", "off", "cap"]);
                let cuts = random_cuts(&mut r, s.len());
                let ch = if prop == "C06" && r.chance(1, 3) {
                    lazy(&cuts, &mut r)
                } else {
                    full(&cuts, &mut r)
                };
                j.trace(&s, cap as i64, buf, &ch);
            }
        }
    }
    // 5. one frame against every capacity and every cut (bounded buffers)
    if prop == "C05" || prop == "C06" {
        let sizes: &[usize] = if thorough { &[0, 1, 2, 4, 6, 7, 13, 28] } else { &[0, 2, 7] };
        let mut frames: Vec<Vec<u8>> = sizes
            .iter()
            .map(|&n| frame(*r.pick(&[1, 5, 0xb5]), r.byte(), &payload(&mut r, n, 0)))
            .collect();
        // frames whose class and id are sync bytes: what follows the first sync
        // bytes is itself the start of an intact frame
        for (n, inner) in [(8u8, 2usize), (9, 4), (13, 8), (12, 0)] {
            let data: Vec<u8> = (0..inner).map(|i| i as u8 + 3).collect();
            let mut p = frame(n, 0, &data)[4..].to_vec();
            while p.len() < n as usize {
                p.push(0x11);
            }
            assert!(p.len() == n as usize);
            frames.push(frame(0xb5, 0x62, &p));
        }
        for f in frames {
            let n = f.len() - 8;
            let tail = frame(5, 1, &[6, 1]);
            let pre = token(&mut r, 3);
            let mut s = pre.clone();
            s.truncate(5);
            s.extend(&f);
            s.extend(&tail);
            for cap in 8..=(n + 20).min(40) {
                for cut in 0..=s.len() {
                    let buf = if cut % 5 == 0 { "off" } else { "flb" };
                    let ch = full(&[cut, s.len() - cut], &mut r);
                    j.trace(&s, cap as i64, buf, &ch);
                    if cut + 3 < s.len() && cut % 3 == 0 {
                        let ch = full(&[cut, 3, s.len() - cut - 3], &mut r);
                        j.trace(&s, cap as i64, buf, &ch);
                    }
                }
            }
        }
    }
    close_out();
    println!("{{\"runs\":{},\"events\":{}}}", j.runs, j.used);
}
