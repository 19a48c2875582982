//! Conformance driver: reads a script (one command per line) on stdin, runs it against the public
//! API of rusty-chromaprint and writes one JSON record per observation on stdout.
//!
//! A panic in the code under test is data: it is recorded as `"res":"panic"` (`"res":"hang"` cannot be
//! observed here; the orchestrator bounds the run time).
use rusty_chromaprint::{
    match_fingerprints, Configuration, FingerprintCompressor, Fingerprinter, MatchError,
    ResetError, Segment,
};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering};

/// Counts the bytes that are allocated.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

const BUF: usize = 32768;

fn clip(v: f64) -> i16 {
    v.round().clamp(-32767.0, 32767.0) as i16
}

/// A piecewise-stationary mix of tones whose instantaneous frequencies depend on time in seconds only,
/// so that the same piece of audio can be sampled at any rate.
fn tones(len: usize, seed: u64, amp: f64, rate: f64) -> Vec<i16> {
    let mut r = Rng::new(seed);
    let voices: Vec<(f64, f64, f64, f64, f64)> = (0..6)
        .map(|_| {
            (
                110.0 * 2f64.powf(r.unit() * 4.0), // base frequency 110..1760
                0.05 + r.unit() * 0.25,            // depth
                0.2 + r.unit() * 1.5,              // modulation frequency
                r.unit() * std::f64::consts::TAU,  // phase
                0.4 + r.unit(),                    // weight
            )
        })
        .collect();
    let total: f64 = voices.iter().map(|v| v.4).sum();
    (0..len)
        .map(|i| {
            let t = i as f64 / rate;
            let mut s = 0.0;
            for &(f, d, m, p, w) in &voices {
                // phase = 2 pi f (t + d/(2 pi m) (1 - cos(2 pi m t)))
                let ph = std::f64::consts::TAU
                    * f
                    * (t + d / (std::f64::consts::TAU * m)
                        * (1.0 - (std::f64::consts::TAU * m * t).cos()));
                let env = 0.55 + 0.45 * (std::f64::consts::TAU * (m * 0.37) * t + p).sin();
                s += w * env * (ph + p).sin();
            }
            clip(amp * s / total)
        })
        .collect()
}

/// The samples as a file: WAV with 8, 16, 24 or 32 bits or floating point ("f32", "f64"), or AIFF ("aiff").
/// The samples are exact in every form ("8": multiples of 256 only).
fn wav(rate: u32, ch: u16, data: &[i16], form: &str) -> Vec<u8> {
    let bits: u16 = match form {
        "f32" => 32,
        "f64" => 64,
        "aiff" => 16,
        x => x.parse().unwrap(),
    };
    let width = u32::from(bits / 8);
    let bytes = data.len() as u32 * width;
    let mut f = Vec::with_capacity(60 + bytes as usize);
    if form == "aiff" {
        f.extend_from_slice(b"FORM");
        f.extend_from_slice(&(4 + 26 + 16 + bytes).to_be_bytes());
        f.extend_from_slice(b"AIFFCOMM");
        f.extend_from_slice(&18u32.to_be_bytes());
        f.extend_from_slice(&ch.to_be_bytes());
        f.extend_from_slice(&(data.len() as u32 / u32::from(ch)).to_be_bytes());
        f.extend_from_slice(&bits.to_be_bytes());
        // the rate as an 80-bit float
        let top = 31 - rate.leading_zeros();
        f.extend_from_slice(&((16383 + top) as u16).to_be_bytes());
        f.extend_from_slice(&(u64::from(rate) << (63 - top)).to_be_bytes());
        f.extend_from_slice(b"SSND");
        f.extend_from_slice(&(8 + bytes).to_be_bytes());
        f.extend_from_slice(&[0; 8]);
    } else {
        f.extend_from_slice(b"RIFF");
        f.extend_from_slice(&(36 + bytes).to_le_bytes());
        f.extend_from_slice(b"WAVEfmt ");
        f.extend_from_slice(&16u32.to_le_bytes());
        f.extend_from_slice(&(if form.starts_with('f') { 3u16 } else { 1 }).to_le_bytes());
        f.extend_from_slice(&ch.to_le_bytes());
        f.extend_from_slice(&rate.to_le_bytes());
        f.extend_from_slice(&(rate * u32::from(ch) * width).to_le_bytes());
        f.extend_from_slice(&(ch * bits / 8).to_le_bytes());
        f.extend_from_slice(&bits.to_le_bytes());
        f.extend_from_slice(b"data");
        f.extend_from_slice(&bytes.to_le_bytes());
    }
    for &x in data {
        match form {
            "8" => {
                assert_eq!(x % 256, 0);
                f.push((i32::from(x) / 256 + 128) as u8);
            }
            "24" => f.extend_from_slice(&(i32::from(x) << 8).to_le_bytes()[..3]),
            "32" => f.extend_from_slice(&(i32::from(x) << 16).to_le_bytes()),
            "f32" => f.extend_from_slice(&(f32::from(x) / 32768.0).to_le_bytes()),
            "f64" => f.extend_from_slice(&(f64::from(x) / 32768.0).to_le_bytes()),
            "aiff" => f.extend_from_slice(&x.to_be_bytes()),
            _ => f.extend_from_slice(&x.to_le_bytes()),
        }
    }
    f
}

fn clicks(len: usize, seed: u64, amp: i64, gap: i64) -> Vec<i16> {
    let mut r = Rng::new(seed);
    let mut v = vec![0i16; len];
    let mut pos = 0usize;
    loop {
        pos += r.range(1, 2 * gap) as usize;
        if pos >= len {
            break;
        }
        v[pos] = r.range(-amp, amp) as i16;
    }
    v
}

/// Silence except for pairs of clicks around every multiple of the internal buffer size, so that a single
/// sample lost, moved or repeated there dominates the items around it.
fn edges(len: usize, seed: u64, amp: i64) -> Vec<i16> {
    let mut r = Rng::new(seed);
    let mut v = clicks(len, seed ^ 77, amp / 3, 900);
    let mut b = BUF;
    while b < len + 40 {
        for d in -40i64..40 {
            let p = b as i64 + d;
            if p >= 0 && (p as usize) < len && (r.below(3) == 0 || (-2..2).contains(&d)) {
                v[p as usize] = r.range(-amp, amp) as i16;
            }
        }
        b += BUF;
    }
    v
}

/// Stretches of up to `seg` samples, each silence, one to three tones, noise, a pulse train, a constant or
/// the highest frequency, at levels from a few units to `amp`.
fn patch(len: usize, seed: u64, seg: usize, amp: f64) -> Vec<i16> {
    let mut r = Rng::new(seed);
    let mut v: Vec<f64> = vec![];
    while v.len() < len {
        let n = r.range(seg as i64 / 4, seg as i64) as usize;
        let a = amp * 0.5f64.powf(r.unit() * 10.0);
        let kind = r.below(12);
        let fs: Vec<(f64, f64, f64)> = (0..r.range(1, 3))
            .map(|_| (25.0 * 2f64.powf(r.unit() * 7.7) / 11025.0, r.unit(), r.unit()))
            .collect();
        let gap = r.range(2, 60) as usize;
        for i in 0..n {
            v.push(match kind {
                0 => 0.0,
                1 => a,
                2 => if i % 2 == 0 { a } else { -a },
                3 | 4 => a * (2.0 * r.unit() - 1.0),
                5 => if i % gap == 0 { a } else { 0.0 },
                _ => a / 3.0 * fs.iter().map(|(f, p, w)| w * (std::f64::consts::TAU * (f * i as f64 + p)).sin()).sum::<f64>(),
            });
        }
    }
    v.truncate(len);
    v.into_iter().map(clip).collect()
}

/// Silence but for groups of two to four clicks, on average `gap` samples apart.
fn pairs(len: usize, seed: u64, gap: usize, amp: i64) -> Vec<i16> {
    let mut r = Rng::new(seed);
    let mut v = vec![0i16; len];
    let mut pos = 0;
    let (mut d, mut left) = (10, 0);
    loop {
        if left == 0 {
            d = r.range(3, 90) as usize;
            left = r.range(5, 30);
        }
        left -= 1;
        pos += r.range(gap as i64 / 2, gap as i64 * 3 / 2) as usize;
        let a = r.range(amp / 4, amp);
        for i in 0..r.range(2, 4) as usize {
            if pos + i * d >= len {
                return v;
            }
            v[pos + i * d] = if r.below(4) == 0 { -a } else { a } as i16;
        }
    }
}

fn json_list<T: std::fmt::Display>(it: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}

#[derive(Default)]
struct Intern {
    map: HashMap<Vec<u32>, usize>,
}
impl Intern {
    /// Small integer identity of a sequence of items; the empty sequence is 0.
    fn id(&mut self, v: &[u32]) -> usize {
        if self.map.is_empty() {
            self.map.insert(vec![], 0);
        }
        let n = self.map.len();
        *self.map.entry(v.to_vec()).or_insert(n)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Run(usize, usize, usize);

fn push_run(runs: &mut Vec<Run>, r: Run) {
    if r.2 == 0 {
        return;
    }
    if let Some(l) = runs.last_mut() {
        if l.0 == r.0 && l.1 + l.2 == r.1 {
            l.2 += r.2;
            return;
        }
    }
    runs.push(r);
}

fn runs_json(runs: &[Run]) -> String {
    json_list(runs.iter().map(|r| format!("[{},{},{}]", r.0, r.1, r.2)))
}

struct Slot {
    fp: Fingerprinter,
    cfg: usize,
    rate: u32,
    ch: u32,
    runs: Vec<Run>,
    prev: usize,
    dead: bool,
    /// fresh instance given exactly the calls since the last successful start
    twin: Option<Fingerprinter>,
    /// the same, given the mono average of every frame
    mtwin: Option<Fingerprinter>,
}

struct World {
    srcs: HashMap<usize, Vec<i16>>,
    cfgs: HashMap<usize, Configuration>,
    slots: HashMap<usize, Slot>,
    fps: HashMap<String, Vec<u32>>,
    intern: Intern,
    canon: HashMap<(usize, u32, Vec<Run>, bool), Option<(usize, usize)>>,
}

/// Frames of `ch` channels whose truncated averages are `mono`.
fn spread(mono: &[i16], ch: usize, seed: u64, src: usize, off: usize) -> Vec<i16> {
    if ch == 1 {
        return mono.to_vec();
    }
    let mut r = Rng::new(seed);
    let mut out = Vec::with_capacity(mono.len() * ch);
    let c = ch as i64;
    // by position in the source, so that calls of a few frames still make the tone
    let period = 8 + (ch * 7 + src * 13 + off / 60_000) % 40;
    for (i, &v) in mono.iter().enumerate() {
        let v = i64::from(v);
        let (lo, hi) = match v.cmp(&0) {
            std::cmp::Ordering::Greater => (v * c, v * c + c - 1),
            std::cmp::Ordering::Less => (v * c - c + 1, v * c),
            std::cmp::Ordering::Equal => (1 - c, c - 1),
        };
        let lo = lo.max(-32768 * c);
        let hi = hi.min(32767 * c);
        // the sums with this truncated average: low and high end by turns, at an audible rate, so that any
        // other way of averaging makes a tone
        let mut rest = if seed % 3 == 0 {
            r.range(lo, hi)
        } else if ((off + i) / period) % 2 == 0 {
            lo
        } else {
            hi
        };
        let base = out.len();
        for k in 0..ch {
            let left = (ch - k) as i64;
            let x = if left == 1 {
                rest
            } else {
                let min = (rest - 32767 * (left - 1)).max(-32768);
                let max = (rest + 32768 * (left - 1)).min(32767);
                let want = rest / left + r.range(-9000, 9000);
                want.clamp(min, max)
            };
            out.push(x as i16);
            rest -= x;
        }
        let rot = r.below(ch as u64) as usize;
        out[base..].rotate_left(rot);
    }
    out
}

fn parse_cfg(words: &[&str]) -> Configuration {
    let mut c = match words[0] {
        "1" => Configuration::preset_test1(),
        "2" => Configuration::preset_test2(),
        "3" => Configuration::preset_test3(),
        "4" => Configuration::preset_test4(),
        "5" => Configuration::preset_test5(),
        "default" => Configuration::default(),
        x => panic!("bad preset {x}"),
    };
    for w in &words[1..] {
        let (k, v) = w.split_once('=').expect("option");
        c = match k {
            "fs" => c.with_frame_size(v.parse().unwrap()),
            "ov" => c.with_frame_overlap(v.parse().unwrap()),
            "coef" => c.with_coefficients(v.split(',').map(|x| x.parse().unwrap()).collect()),
            "interp" => c.with_interpolation(v == "1"),
            "id" => c.with_id(v.parse().unwrap()),
            "sil" => c.with_removed_silence(v.parse().unwrap()),
            _ => panic!("bad option {k}"),
        };
    }
    c
}

/// The same call on a twin; a twin that panics is lost.
fn feed(t: &mut Option<Fingerprinter>, f: impl FnOnce(&mut Fingerprinter)) {
    if let Some(x) = t.as_mut() {
        if quiet(|| f(x)).is_none() {
            *t = None;
        }
    }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

impl World {
    fn mono(&self, runs: &[Run]) -> Vec<i16> {
        let mut v = Vec::new();
        for r in runs {
            v.extend_from_slice(&self.srcs[&r.0][r.1..r.1 + r.2]);
        }
        v
    }

    fn fresh(cfg: &Configuration, rate: u32, ch: u32, data: &[i16]) -> Option<Vec<u32>> {
        quiet(|| {
            let mut p = Fingerprinter::new(cfg);
            p.start(rate, ch).ok()?;
            p.consume(data);
            p.finish();
            Some(p.fingerprint().to_vec())
        })
        .flatten()
    }

    /// The reference run: a new fingerprinter, mono, one consume, one finish. With `alt`, the same audio
    /// is finished every 10007 frames, which moves the edges of the internal buffer (internal rate only).
    fn canonical(&mut self, cfg: usize, rate: u32, runs: &[Run], alt: bool) -> (i64, i64) {
        let key = (cfg, rate, runs.to_vec(), alt);
        if let Some(r) = self.canon.get(&key) {
            return r.map_or((-1, -1), |(n, i)| (n as i64, i as i64));
        }
        let mono = self.mono(runs);
        let c = &self.cfgs[&cfg];
        let got = if alt {
            quiet(|| {
                let mut p = Fingerprinter::new(c);
                p.start(rate, 1).ok()?;
                for part in mono.chunks(10007) {
                    p.consume(part);
                    p.finish();
                }
                Some(p.fingerprint().to_vec())
            })
            .flatten()
        } else {
            Self::fresh(c, rate, 1, &mono)
        };
        let res = got.map(|v| (v.len(), self.intern.id(&v)));
        self.canon.insert(key, res);
        res.map_or((-1, -1), |(n, i)| (n as i64, i as i64))
    }

    /// Observe the fingerprint of slot p: length, identity, and identity of the part seen before.
    fn observe(&mut self, p: usize) -> String {
        let slot = self.slots.get_mut(&p).unwrap();
        let Some(v) = quiet(|| slot.fp.fingerprint().to_vec()) else {
            return "\"n\":-1,\"id\":-1,\"pre\":-1,\"tid\":-1,\"mid\":-1".into();
        };
        let t: Vec<i64> = [&slot.twin, &slot.mtwin]
            .into_iter()
            .map(|t| match t {
                None => -1,
                Some(t) => quiet(|| t.fingerprint().to_vec())
                    .map_or(-1, |v| self.intern.id(&v) as i64),
            })
            .collect();
        let prev = slot.prev;
        slot.prev = v.len();
        let id = self.intern.id(&v);
        let pre = if prev <= v.len() {
            self.intern.id(&v[..prev]) as i64
        } else {
            -1
        };
        format!(
            "\"n\":{},\"id\":{},\"pre\":{},\"tid\":{},\"mid\":{}",
            v.len(),
            id,
            pre,
            t[0],
            t[1]
        )
    }
}

fn items_json(v: &[u32]) -> String {
    format!(
        "\"hi\":{},\"lo\":{}",
        json_list(v.iter().map(|x| x >> 16)),
        json_list(v.iter().map(|x| x & 0xffff))
    )
}

fn parse_items(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}

fn seg_json(s: &Segment) -> String {
    // score as the nearest integer number of differing bits over the segment, and how far off that is
    let total = s.score * s.items_count as f64;
    let near = total.round();
    let err = ((total - near).abs() * 1e6).min(1e9).round();
    let (near, err) = if near.is_finite() && near.abs() < 2e9 {
        (near as i64, err as i64)
    } else {
        (-1, 1_000_000_000)
    };
    format!(
        "{{\"o1\":{},\"o2\":{},\"len\":{},\"sum\":{},\"err\":{}}}",
        s.offset1, s.offset2, s.items_count, near, err
    )
}

fn micro(x: f32) -> i64 {
    let v = f64::from(x) * 1e6;
    if v.is_finite() && v.abs() < 4e18 {
        v.round() as i64
    } else {
        -1
    }
}

/// Uncompressed ("verbatim") FLAC, one frame per block.
/// The header and the frames.
fn flac_parts(rate: u32, ch: usize, data: &[i16], sizes: &[usize], bad: Option<usize>) -> (Vec<u8>, Vec<Vec<u8>>) {
    fn crc(bytes: &[u8], bits: u32, poly: u32) -> u32 {
        let mut c = 0u32;
        for &b in bytes {
            c ^= u32::from(b) << (bits - 8);
            for _ in 0..8 {
                c = if c >> (bits - 1) & 1 == 1 { c << 1 ^ poly } else { c << 1 };
            }
        }
        c & ((1u64 << bits) - 1) as u32
    }
    let total = data.len() / ch;
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    // different, or the blocks would have to be numbered
    let (lo, hi) = (16u16, (*sizes.iter().max().unwrap()).max(17) as u16);
    f.extend_from_slice(&lo.to_be_bytes());
    f.extend_from_slice(&hi.to_be_bytes());
    f.extend_from_slice(&[0; 6]);
    let w = u64::from(rate) << 44 | (ch as u64 - 1) << 41 | 15 << 36 | total as u64;
    f.extend_from_slice(&w.to_be_bytes());
    f.extend_from_slice(&[0; 16]);
    let header = std::mem::take(&mut f);
    let mut frames = vec![];
    let mut pos = 0;
    while pos < total {
        let n = sizes[frames.len() % sizes.len()].min(total - pos);
        f.extend_from_slice(&[0xff, 0xf9, 0x70, ((ch as u8 - 1) << 4) | 8]);
        // sample number, coded like UTF-8
        let v = pos as u64;
        if v < 0x80 {
            f.push(v as u8);
        } else {
            let extra = (1..=6).find(|&e| v < 1u64 << (5 * e + 6).min(if e == 6 { 36 } else { 63 })).unwrap();
            let lead = (0xffu32 << (7 - extra)) as u8;
            f.push((0xff00u32 >> (extra + 1)) as u8 | if extra >= 6 { 0 } else { (v >> (6 * extra)) as u8 & !lead });
            for e in (0..extra).rev() {
                f.push(0x80 | (v >> (6 * e)) as u8 & 0x3f);
            }
        }
        f.extend_from_slice(&((n - 1) as u16).to_be_bytes());
        f.push(crc(&f, 8, 7) as u8);
        for c in 0..ch {
            // a subframe of a type that does not exist, in the packet that is to be bad
            f.push(if bad == Some(pos) { 4 } else { 2 });
            for i in pos..pos + n {
                f.extend_from_slice(&data[i * ch + c].to_be_bytes());
            }
        }
        f.extend_from_slice(&(crc(&f, 16, 0x8005) as u16).to_be_bytes());
        frames.push(std::mem::take(&mut f));
        pos += n;
    }
    (header, frames)
}

fn flac(rate: u32, ch: usize, data: &[i16], sizes: &[usize], bad: Option<usize>) -> Vec<u8> {
    let (mut f, frames) = flac_parts(rate, ch, data, sizes, bad);
    frames.iter().for_each(|x| f.extend_from_slice(x));
    f
}

/// Matroska. Tracks are (number, audio: None for subtitles and unknown codecs, with their codec id, packets).
struct MkvTrack {
    number: u8,
    codec: &'static str,
    audio: Option<(u32, usize)>,
    private: Vec<u8>,
    packets: Vec<Vec<u8>>,
}

fn mkv(tracks: &[MkvTrack], main: usize, pattern: &[usize]) -> Vec<u8> {
    fn el(id: u32, body: &[u8]) -> Vec<u8> {
        let skip = id.leading_zeros() as usize / 8;
        let mut v = id.to_be_bytes()[skip..].to_vec();
        v.extend_from_slice(&(body.len() as u64 | 1 << 56).to_be_bytes());
        v.extend_from_slice(body);
        v
    }
    let un = |id, v: u32| el(id, &v.to_be_bytes());
    let entries: Vec<u8> = tracks
        .iter()
        .flat_map(|t| {
            let mut e = [un(0xd7, t.number.into()), un(0x73c5, 900 + u32::from(t.number)), el(0x86, t.codec.as_bytes())].concat();
            e.extend(un(0x83, if t.audio.is_some() { 2 } else { 17 }));
            if !t.private.is_empty() {
                e.extend(el(0x63a2, &t.private));
            }
            if let Some((rate, ch)) = t.audio {
                e.extend(el(0xe1, &[el(0xb5, &f64::from(rate).to_be_bytes()), un(0x9f, ch as u32), un(0x6264, 16)].concat()));
            }
            el(0xae, &e)
        })
        .collect();
    // before packet k of the main track come pattern[k] packets of the others, by turns
    let mut blocks: Vec<(u8, &[u8])> = vec![];
    let others: Vec<usize> = (0..tracks.len()).filter(|&t| t != main && !tracks[t].packets.is_empty()).collect();
    let mut turn = 0;
    let count = tracks[main].packets.len();
    for k in 0..=count {
        for _ in 0..if others.is_empty() { 0 } else { pattern[k % pattern.len()] } {
            let t = &tracks[others[turn % others.len()]];
            blocks.push((t.number, &t.packets[turn / others.len() % t.packets.len()]));
            turn += 1;
        }
        if k < count {
            blocks.push((tracks[main].number, &tracks[main].packets[k]));
        }
    }
    let clusters: Vec<u8> = blocks
        .chunks(7)
        .enumerate()
        .flat_map(|(k, bs)| {
            let mut c = un(0xe7, 1000 * k as u32);
            for (j, (number, data)) in bs.iter().enumerate() {
                let block = [&[0x80 | number, 0, j as u8, 0x80], *data].concat();
                // either kind of block
                c.extend(if (k + j) % 3 == 0 { el(0xa0, &el(0xa1, &block)) } else { el(0xa3, &block) });
            }
            el(0x1f43b675, &c)
        })
        .collect();
    [
        el(0x1a45dfa3, &el(0x4282, b"matroska")),
        el(0x18538067, &[el(0x1549a966, &un(0x2ad7b1, 1_000_000)), el(0x1654ae6b, &entries), clusters].concat()),
    ]
    .concat()
}


fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut w = World {
        srcs: HashMap::new(),
        cfgs: HashMap::new(),
        slots: HashMap::new(),
        fps: HashMap::new(),
        intern: Intern::default(),
        canon: HashMap::new(),
    };
    w.intern.id(&[]);
    let mut serial = 0u64;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let words: Vec<&str> = line.split_whitespace().collect();
        if words.is_empty() || words[0].starts_with('#') {
            continue;
        }
        serial += 1;
        let num = |i: usize| -> usize { words[i].parse().unwrap_or_else(|_| panic!("bad: {line}")) };
        let mut rec = String::new();
        match words[0] {
            "src" => {
                let id = num(1);
                let v: Vec<i16> = match words[2] {
                    "noise" => {
                        let mut r = Rng::new(num(4) as u64);
                        let a = num(5) as i64;
                        (0..num(3)).map(|_| r.range(-a, a) as i16).collect()
                    }
                    "tones" => tones(
                        num(3),
                        num(4) as u64,
                        num(5) as f64,
                        words.get(6).map_or(11025.0, |x| x.parse().unwrap()),
                    ),
                    "clicks" => clicks(num(3), num(4) as u64, num(5) as i64, num(6) as i64),
                    "edges" => edges(num(3), num(4) as u64, num(5) as i64),
                    "square" => {
                        // low-level square wave of the given half period
                        let h = num(5);
                        let a = num(4) as i16;
                        (0..num(3)).map(|i| if (i / h) % 2 == 0 { a } else { -a }).collect()
                    }
                    "extreme" => {
                        let mut r = Rng::new(num(4) as u64);
                        (0..num(3))
                            .map(|_| match r.below(4) {
                                0 => i16::MIN,
                                1 => i16::MAX,
                                2 => i16::MIN + 1,
                                _ => 0,
                            })
                            .collect()
                    }
                    "silence" => vec![0; num(3)],
                    "patch" => patch(num(3), num(4) as u64, num(5), num(6) as f64),
                    "pairs" => pairs(num(3), num(4) as u64, num(5), num(6) as i64),
                    "lit" => {
                        if words[3] == "-" {
                            vec![]
                        } else {
                            words[3].split(',').map(|x| x.parse().unwrap()).collect()
                        }
                    }
                    "slice" => w.srcs[&num(3)][num(4)..num(4) + num(5)].to_vec(),
                    "cat" => {
                        let mut v = vec![];
                        for x in words[3].split(',') {
                            v.extend_from_slice(&w.srcs[&x.parse().unwrap()]);
                        }
                        v
                    }
                    "scale" => {
                        let k: i64 = words[4].parse().unwrap();
                        let d: i64 = words[5].parse().unwrap();
                        w.srcs[&num(3)]
                            .iter()
                            .map(|&x| i16::try_from(i64::from(x) / d * k).unwrap())
                            .collect()
                    }
                    "overlay" => {
                        // src ID overlay BASE OFF PATCH: replace samples from OFF on by PATCH
                        let mut v = w.srcs[&num(3)].clone();
                        let p = &w.srcs[&num(5)];
                        let o = num(4);
                        v[o..o + p.len()].copy_from_slice(p);
                        v
                    }
                    x => panic!("bad source {x}"),
                };
                w.srcs.insert(id, v);
            }
            "cfg" => {
                let id = num(1);
                match quiet(|| parse_cfg(&words[2..])) {
                    Some(c) => {
                        w.cfgs.insert(id, c);
                    }
                    // never expected: the orchestrator reports it
                    None => rec = format!("{{\"ev\":\"cfgpanic\",\"cmd\":\"{line}\"}}"),
                }
            }
            "cfginfo" => {
                let c = &w.cfgs[&num(1)];
                let d = quiet(|| {
                    c.item_duration_in_seconds();
                    c.delay()
                });
                rec = format!(
                    "{{\"ev\":\"cfginfo\",\"cfg\":{},\"id\":{},\"delay\":{},\"durnano\":{},\"rate\":{}}}",
                    num(1),
                    c.id(),
                    d.map_or(-1, |x| x as i64),
                    quiet(|| c.item_duration_in_seconds()).map_or(-1, |x| (f64::from(x) * 1e9).round() as i64),
                    c.sample_rate()
                );
            }
            "new" => {
                let p = num(1);
                let fp = quiet(|| Fingerprinter::new(&w.cfgs[&num(2)]));
                let res = if fp.is_some() { "ok" } else { "panic" };
                if let Some(fp) = fp {
                    w.slots.insert(
                        p,
                        Slot {
                            fp,
                            cfg: num(2),
                            rate: 0,
                            ch: 0,
                            runs: vec![],
                            prev: 0,
                            dead: false,
                            twin: None,
                            mtwin: None,
                        },
                    );
                }
                rec = format!("{{\"ev\":\"new\",\"p\":{},\"cfg\":{},\"res\":\"{}\",", p, num(2), res);
                rec += &w.observe(p);
                rec.push('}');
            }
            "start" => {
                let p = num(1);
                let rate: u32 = words[2].parse().unwrap();
                let ch: u32 = words[3].parse().unwrap();
                let s = w.slots.get_mut(&p).unwrap();
                let res = match quiet(|| s.fp.start(rate, ch)) {
                    None => {
                        s.dead = true;
                        "panic"
                    }
                    Some(Ok(())) => {
                        s.rate = rate;
                        s.ch = ch;
                        s.runs.clear();
                        s.prev = 0;
                        let fresh = |ch: u32| {
                            quiet(|| {
                                let mut t = Fingerprinter::new(&w.cfgs[&s.cfg]);
                                t.start(rate, ch).unwrap();
                                t
                            })
                        };
                        s.twin = fresh(ch);
                        s.mtwin = fresh(1);
                        "ok"
                    }
                    Some(Err(ResetError::NoChannels)) => "nochannels",
                    Some(Err(ResetError::SampleRateTooLow)) => "ratetoolow",
                    Some(Err(_)) => "othererror",
                };
                rec = format!(
                    "{{\"ev\":\"start\",\"p\":{},\"rate\":{},\"ch\":{},\"res\":\"{}\",",
                    p,
                    rate.min(i32::MAX as u32),
                    ch.min(i32::MAX as u32),
                    res
                );
                rec += &w.observe(p);
                rec.push('}');
            }
            // consume P SRC OFF LEN: one call; pour P SRC OFF LEN N1,N2..: calls of N1, N2.. frames, over and over
            "consume" | "pour" => {
                let (p, src, off, len) = (num(1), num(2), num(3), num(4));
                let steps: Vec<usize> = match words.get(5) {
                    Some(t) => t.split(',').map(|x| x.parse().unwrap()).collect(),
                    None => vec![len],
                };
                let ch = w.slots[&p].ch as usize;
                let (mut at, mut k, mut res) = (off, 0, "ok");
                while k == 0 || at < off + len {
                    let n = steps[k % steps.len()].min(off + len - at);
                    k += 1;
                    let mono = &w.srcs[&src][at..at + n];
                    let data = spread(mono, ch, serial + k as u64, src, at);
                    let s = w.slots.get_mut(&p).unwrap();
                    feed(&mut s.twin, |t| t.consume(&data));
                    feed(&mut s.mtwin, |t| t.consume(mono));
                    match quiet(|| s.fp.consume(&data)) {
                        Some(()) => push_run(&mut s.runs, Run(src, at, n)),
                        None => {
                            s.dead = true;
                            res = "panic";
                            break;
                        }
                    }
                    at += n;
                }
                rec = format!(
                    "{{\"ev\":\"consume\",\"p\":{p},\"src\":{src},\"off\":{off},\"len\":{len},\"calls\":{k},\"res\":\"{res}\","
                );
                rec += &w.observe(p);
                rec.push('}');
            }
            "bad" => {
                // a call whose length is not a whole number of frames
                let (p, src, off, extra) = (num(1), num(2), num(3), num(4));
                let ch = w.slots[&p].ch as usize;
                let n = extra * ch + 1 + (serial as usize) % (ch - 1);
                let mut data = spread(&w.srcs[&src][off..off + extra + 1], ch, serial, src, off);
                data.truncate(n);
                let s = w.slots.get_mut(&p).unwrap();
                let res = match quiet(|| s.fp.consume(&data)) {
                    Some(()) => "ok",
                    None => "panic",
                };
                rec = format!("{{\"ev\":\"bad\",\"p\":{p},\"res\":\"{res}\",");
                rec += &w.observe(p);
                rec.push('}');
            }
            "finish" => {
                let p = num(1);
                let s = w.slots.get_mut(&p).unwrap();
                feed(&mut s.twin, |t| t.finish());
                feed(&mut s.mtwin, |t| t.finish());
                let res = match quiet(|| s.fp.finish()) {
                    Some(()) => "ok",
                    None => {
                        s.dead = true;
                        "panic"
                    }
                };
                let (cfg, rate, runs) = (s.cfg, s.rate, s.runs.clone());
                let obs = w.observe(p);
                let (cn, cid) = if rate == 0 { (0, 0) } else { w.canonical(cfg, rate, &runs, false) };
                let (an, aid) = if rate == 0 { (0, 0) } else { w.canonical(cfg, rate, &runs, true) };
                rec = format!(
                    "{{\"ev\":\"finish\",\"p\":{p},\"res\":\"{res}\",{obs},\"runs\":{},\"cn\":{cn},\"cid\":{cid},\"an\":{an},\"aid\":{aid}}}",
                    runs_json(&runs)
                );
            }
            "read" => {
                let p = num(1);
                rec = format!("{{\"ev\":\"read\",\"p\":{p},");
                rec += &w.observe(p);
                rec.push('}');
            }
            // endless NAME CFG RATE SRC TIMES KEEP: a mono source given TIMES times over; the last KEEP items
            "endless" => {
                let cfg = &w.cfgs[&num(2)];
                let data = &w.srcs[&num(4)];
                let v = quiet(|| {
                    let mut p = Fingerprinter::new(cfg);
                    p.start(num(3) as u32, 1).ok()?;
                    for _ in 0..num(5) {
                        p.consume(data);
                    }
                    p.finish();
                    let all = p.fingerprint();
                    let skip = all.len() - all.len().min(num(6));
                    Some((skip, all[skip..].to_vec()))
                })
                .flatten();
                let res = if v.is_some() { "ok" } else { "panic" };
                let (skip, v) = v.unwrap_or_default();
                rec = format!(
                    "{{\"ev\":\"fp\",\"name\":\"{}\",\"res\":\"{res}\",\"skip\":{skip},{}}}",
                    words[1],
                    items_json(&v)
                );
            }
            // fp NAME CFG RATE CH SRC [FEED]: whole fingerprint of an (interleaved) source; FEED = size of the
            // consume calls in frames (0: one call)
            // fpq: the same without a record
            "fp" | "fpq" => {
                let cfg = &w.cfgs[&num(2)];
                let rate: u32 = words[3].parse().unwrap();
                let ch: u32 = words[4].parse().unwrap();
                let data = &w.srcs[&num(5)];
                let feed: usize = words.get(6).map_or(0, |x| x.parse().unwrap());
                let v = if feed == 0 {
                    World::fresh(cfg, rate, ch, data)
                } else {
                    quiet(|| {
                        let mut p = Fingerprinter::new(cfg);
                        p.start(rate, ch).ok()?;
                        for part in data.chunks(feed * ch as usize) {
                            p.consume(part);
                        }
                        p.finish();
                        Some(p.fingerprint().to_vec())
                    })
                    .flatten()
                };
                let res = if v.is_some() { "ok" } else { "panic" };
                let v = v.unwrap_or_default();
                let id = w.intern.id(&v);
                rec = format!(
                    "{{\"ev\":\"fp\",\"name\":\"{}\",\"cfg\":{},\"rate\":{},\"ch\":{},\"src\":{},\"frames\":{},\"res\":\"{}\",\"id\":{},\"n\":{},{}}}",
                    words[1],
                    num(2),
                    rate.min(i32::MAX as u32),
                    ch,
                    num(5),
                    data.len() / ch as usize,
                    res,
                    id,
                    v.len(),
                    items_json(&v)
                );
                w.fps.insert(words[1].to_string(), v);
                if words[0] == "fpq" {
                    rec.clear();
                }
            }
            // sig CFG SRC JSON: fingerprint of a mono source at the internal rate with its non-zero samples;
            // JSON: fields describing the configuration, copied to the record
            "sig" => {
                let cfg = &w.cfgs[&num(1)];
                let data = &w.srcs[&num(2)];
                let v = World::fresh(cfg, 11025, 1, data);
                let res = if v.is_some() { "ok" } else { "panic" };
                let v = v.unwrap_or_default();
                rec = format!(
                    "{{\"ev\":\"sig\",{},\"res\":\"{res}\",\"len\":{},\"x\":{},\"n\":{},{}}}",
                    words[3],
                    data.len(),
                    json_list(data.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| format!("[{i},{x}]"))),
                    v.len(),
                    items_json(&v)
                );
            }
            // edge CFG LEN SEED Q T JSON: two streams of one item each that differ as little as can be and lie on
            // either side of the T-th threshold of the Q-th classifier, as the code draws it; for Q = 0, one gives
            // the item of silence and the other does not
            "edge" => {
                let cfg = &w.cfgs[&num(1)];
                let (len, seed, q, t) = (num(2), num(3) as u64, num(4), num(5) as u32);
                let still = World::fresh(cfg, 11025, 1, &vec![0; len]).and_then(|v| v.first().copied());
                let below = |data: &[i16]| -> Option<bool> {
                    let x = *World::fresh(cfg, 11025, 1, data)?.first()?;
                    Some(if q == 0 { Some(x) == still } else { [0, 1, 3, 2][(x >> (32 - 2 * q) & 3) as usize] < t })
                };
                let make = |k: u64| {
                    let mut r = Rng::new(seed * 7919 + k);
                    let seg = r.range(20, len as i64) as usize;
                    patch(len, r.next(), seg, if q == 0 { 2000.0 } else { 30000.0 })
                };
                let (mut a, mut b, mut panicked) = (None, None, false);
                if q == 0 {
                    a = Some(vec![0; len]);
                }
                for k in 0..4000 {
                    let x = make(k);
                    match below(&x) {
                        None => panicked = true,
                        Some(true) => a = a.or(Some(x)),
                        Some(false) => b = b.or(Some(x)),
                    }
                    if panicked || a.is_some() && b.is_some() {
                        break;
                    }
                }
                if let (Some(mut a), Some(mut b)) = (a, b) {
                    let (from, to) = (a.clone(), b.clone());
                    let (mut lo, mut hi) = (0.0f64, 1.0f64);
                    for _ in 0..40 {
                        let m = (lo + hi) / 2.0;
                        let x: Vec<i16> = from.iter().zip(&to)
                            .map(|(&p, &q)| (f64::from(p) * (1.0 - m) + f64::from(q) * m).round() as i16).collect();
                        if x == a || x == b {
                            break;
                        }
                        if below(&x) == Some(true) {
                            lo = m;
                            a = x;
                        } else {
                            hi = m;
                            b = x;
                        }
                    }
                    rec = [a, b].iter().map(|data| {
                        let v = World::fresh(cfg, 11025, 1, data);
                        let res = if v.is_some() { "ok" } else { "panic" };
                        let v = v.unwrap_or_default();
                        format!(
                            "{{\"ev\":\"sig\",\"q\":{q},\"t\":{t},{},\"res\":\"{res}\",\"len\":{},\"x\":{},\"n\":{},{}}}",
                            words[6],
                            data.len(),
                            json_list(data.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| format!("[{i},{x}]"))),
                            v.len(),
                            items_json(&v)
                        )
                    }).collect::<Vec<_>>().join("\n");
                } else {
                    rec = format!("{{\"ev\":\"noedge\",\"q\":{q},\"t\":{t},{},\"res\":\"{}\"}}", words[6], if panicked { "panic" } else { "ok" });
                }
            }
            // memory CFG TAG OP..: bytes in use after each operation beyond those before the first.
            // s:RATE:CH starts, c:FRAMES:TIMES consumes, f finishes, b a refused call, d drops the fingerprinter and
            // makes another, g:FRAMES:TIMES consumes and finishes, r:RATE:TIMES starts and consumes, z:ITEMS:TIMES compresses, m:ITEMS:TIMES matches
            "memory" => {
                let cfg = w.cfgs[&num(1)].clone();
                let mut got: Vec<[i64; 2]> = Vec::with_capacity(words.len());
                let ops: Vec<(char, u32, u32)> = words[3..]
                    .iter()
                    .map(|x| {
                        let mut p = x.split(':');
                        let c = p.next().unwrap().chars().next().unwrap();
                        (c, p.next().map_or(0, |x| x.parse().unwrap()), p.next().map_or(0, |x| x.parse().unwrap()))
                    })
                    .collect();
                let audio = patch(1 << 20, num(1) as u64 + 5, 4000, 30000.0);
                let mut r = Rng::new(7);
                let items: Vec<u32> = (0..1 << 16).map(|_| r.next() as u32).collect();
                let before = LIVE.load(Ordering::Relaxed);
                let mut fp = Some(Fingerprinter::new(&cfg));
                let mut ch = 0;
                let mut pos = 0;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    for &(op, a, b) in &ops {
                        let p = fp.as_mut().unwrap();
                        match op {
                            's' => {
                                if p.start(a, b).is_ok() {
                                    ch = b as usize;
                                }
                            }
                            'c' => {
                                let n = a as usize * ch;
                                for _ in 0..b {
                                    if pos + n > audio.len() {
                                        pos = 0;
                                    }
                                    p.consume(&audio[pos..pos + n]);
                                    pos += n;
                                }
                            }
                            'f' => p.finish(),
                            'g' => {
                                for i in 0..b as usize {
                                    p.consume(&audio[i..i + a as usize * ch]);
                                    p.finish();
                                }
                            }
                            'r' => {
                                ch = 1;
                                for i in 0..b as usize {
                                    p.start(a, 1).unwrap();
                                    p.consume(&audio[i..i + 700 + i % 5000]);
                                    if i % 3 == 0 {
                                        p.finish();
                                    }
                                }
                            }
                            'b' => {
                                for _ in 0..a {
                                    assert!(p.start(500, 1).is_err());
                                }
                            }
                            'd' => {
                                fp = None;
                                got.push([0, LIVE.load(Ordering::Relaxed) - before]);
                                fp = Some(Fingerprinter::new(&cfg));
                                continue;
                            }
                            'z' => {
                                for i in 0..b as usize {
                                    let x = FingerprintCompressor::from(&cfg).compress(&items[i..i + a as usize]);
                                    assert!(x.len() >= 4);
                                }
                            }
                            'm' => {
                                for i in 0..b as usize {
                                    let (x, y) = (&items[i..i + a as usize], &items[3 * i..3 * i + a as usize]);
                                    assert!(match_fingerprints(x, y, &cfg).is_ok());
                                }
                            }
                            _ => unreachable!(),
                        }
                        got.push([p.fingerprint().len() as i64, LIVE.load(Ordering::Relaxed) - before]);
                    }
                }));
                drop(fp);
                rec = format!(
                    "{{\"ev\":\"memory\",\"cfg\":{},\"tag\":\"{}\",\"res\":\"{}\",\"ops\":{}}}",
                    num(1), words[2], if res.is_ok() { "ok" } else { "panic" },
                    json_list(ops.iter().zip(&got).map(|(o, g)| format!(
                        "{{\"op\":\"{}\",\"a\":{},\"b\":{},\"items\":{},\"live\":{}}}", o.0, o.1, o.2, g[0], g[1])))
                );
            }
            "dumpsrc" => {
                rec = format!(
                    "{{\"ev\":\"src\",\"src\":{},\"v\":{}}}",
                    num(1),
                    json_list(w.srcs[&num(1)].iter())
                );
            }
            // threads TAG K CFG RATE SRC...: the same jobs alone, and on K threads at once
            "threads" => {
                let k = num(2);
                let cfg = w.cfgs[&num(3)].clone();
                let rate: u32 = words[4].parse().unwrap();
                let jobs: Vec<Vec<i16>> =
                    words[5].split(',').map(|x| w.srcs[&x.parse().unwrap()].clone()).collect();
                let alone: Vec<_> = jobs.iter().map(|j| World::fresh(&cfg, rate, 1, j)).collect();
                let handles: Vec<_> = (0..k)
                    .map(|t| {
                        let cfg = cfg.clone();
                        let jobs = jobs.clone();
                        std::thread::spawn(move || {
                            let mut res = vec![];
                            for i in 0..jobs.len() {
                                let j = (i + t) % jobs.len();
                                let got = quiet(|| {
                                    let mut p = Fingerprinter::new(&cfg);
                                    p.start(rate, 1).ok()?;
                                    for part in jobs[j].chunks(1000 + 37 * t) {
                                        p.consume(part);
                                        std::thread::yield_now();
                                    }
                                    p.finish();
                                    Some(p.fingerprint().to_vec())
                                })
                                .flatten();
                                res.push((j, got));
                            }
                            res
                        })
                    })
                    .collect();
                let mut pairs = vec![];
                for h in handles {
                    for (j, got) in h.join().unwrap() {
                        let a = alone[j].as_ref().map_or(-1, |v| w.intern.id(v) as i64);
                        let b = got.map_or(-2, |v| w.intern.id(&v) as i64);
                        pairs.push(format!("[{a},{b}]"));
                    }
                }
                rec = format!(
                    "{{\"ev\":\"threads\",\"tag\":\"{}\",\"pairs\":{}}}",
                    words[1],
                    json_list(pairs)
                );
            }
            // compress TAG CFG ITEMS
            "compress" => {
                let cfg = &w.cfgs[&num(2)];
                let items = parse_items(words[3]);
                let got = quiet(|| FingerprintCompressor::from(cfg).compress(&items));
                let again = quiet(|| FingerprintCompressor::from(cfg).compress(&items));
                let bits = |x: &u32| json_list((0..32).filter(|b| (x >> b) & 1 == 1).map(|b| b + 1));
                rec = format!(
                    "{{\"ev\":\"compress\",\"tag\":\"{}\",\"id\":{},\"items\":{},\"res\":\"{}\",\"same\":{},\"bytes\":{}}}",
                    words[1],
                    cfg.id(),
                    json_list(items.iter().map(bits)),
                    if got.is_some() { "ok" } else { "panic" },
                    u8::from(got == again),
                    json_list(got.unwrap_or_default())
                );
            }
            // compressbig TAG CFG COUNT SEED W1,W2..: a long fingerprint whose every item differs from its
            // predecessor in one bit, numbered 7..32: two normal codes and one excess code per item, so
            // that eight items fill 6 + 5 whole bytes. Reports header, length and the windows of eight
            // items starting at W1, W2.. (multiples of 8) with the bytes they occupy.
            "compressbig" => {
                let cfg = &w.cfgs[&num(2)];
                let n = num(3);
                let mut r = Rng::new(num(4) as u64);
                let ds: Vec<u8> = (0..n).map(|_| r.range(7, 32) as u8).collect();
                let mut last = 0u32;
                let items: Vec<u32> = ds
                    .iter()
                    .map(|d| {
                        last ^= 1u32 << (d - 1);
                        last
                    })
                    .collect();
                let got = quiet(|| FingerprintCompressor::from(cfg).compress(&items));
                let res = if got.is_some() { "ok" } else { "panic" };
                let b = got.unwrap_or_default();
                let nb = (6 * n).div_ceil(8);
                let part = |from: usize, len: usize| {
                    json_list(b.iter().skip(from).take(len))
                };
                let wins: Vec<String> = words[5]
                    .split(',')
                    .map(|x| x.parse::<usize>().unwrap())
                    .filter(|at| *at < n)
                    .map(|at| {
                        let m = 8.min(n - at);
                        format!(
                            "{{\"at\":{at},\"d\":{},\"nb\":{},\"eb\":{}}}",
                            json_list(&ds[at..at + m]),
                            part(4 + at / 8 * 6, (6 * m).div_ceil(8)),
                            part(4 + nb + at / 8 * 5, (5 * m).div_ceil(8))
                        )
                    })
                    .collect();
                rec = format!(
                    "{{\"ev\":\"compressbig\",\"tag\":\"{}\",\"id\":{},\"count\":{},\"res\":\"{}\",\"head\":{},\"len\":{},\"wins\":{}}}",
                    words[1],
                    cfg.id(),
                    n,
                    res,
                    json_list(b.iter().take(4)),
                    b.len(),
                    json_list(wins)
                );
            }
            // match TAG CFG ITEMS ITEMS
            // matchfp TAG CFG NAME1 NAME2: fingerprints computed by fp / fpq
            "match" | "matchfp" => {
                let cfg = &w.cfgs[&num(2)];
                let (a, b) = if words[0] == "match" {
                    (parse_items(words[3]), parse_items(words[4]))
                } else {
                    (w.fps[words[3]].clone(), w.fps[words[4]].clone())
                };
                let got = quiet(|| match_fingerprints(&a, &b, cfg));
                let (res, segs) = match &got {
                    None => ("panic", vec![]),
                    Some(Ok(v)) => ("ok", v.iter().map(seg_json).collect()),
                    Some(Err(MatchError::FingerprintTooLong { index: 0 })) => ("long0", vec![]),
                    Some(Err(MatchError::FingerprintTooLong { index: 1 })) => ("long1", vec![]),
                    #[allow(unreachable_patterns)]
                    Some(Err(_)) => ("error", vec![]),
                };
                let split = |v: &[u32], k: char| {
                    format!(
                        "\"h{k}\":{},\"l{k}\":{}",
                        json_list(v.iter().map(|x| x >> 20)),
                        json_list(v.iter().map(|x| x & 0xfffff))
                    )
                };
                rec = format!(
                    "{{\"ev\":\"match\",\"tag\":\"{}\",\"n1\":{},\"n2\":{},{},{},\"res\":\"{}\",\"segs\":{}}}",
                    words[1],
                    a.len(),
                    b.len(),
                    split(&a, '1'),
                    split(&b, '2'),
                    res,
                    json_list(segs)
                );
            }
            // matchlen TAG CFG N1 N2 MODE: fingerprints of given lengths
            // (mode 0: items whose hashes never coincide; 1: equal tails of two items coincide)
            "matchlen" => {
                let cfg = &w.cfgs[&num(2)];
                let (n1, n2) = (num(3), num(4));
                let tail = num(5) as u32;
                // hashes of the first: 0..2000, of the second: 2048..4048, of the common tail: 4090
                let mk = |n: usize, base: u32| -> Vec<u32> {
                    (0..n)
                        .map(|i| {
                            if i + (tail as usize) >= n {
                                (4050 + ((n - i) as u32 % 45)) << 20 | ((n - i) as u32)
                            } else {
                                (base + (i as u32).wrapping_mul(7) % 2000) << 20 | if base == 0 { 0 } else { 0xF_FFFF }
                            }
                        })
                        .collect()
                };
                let (a, b) = (mk(n1, 0), mk(n2, 2048));
                let got = quiet(|| match_fingerprints(&a, &b, cfg));
                let (res, segs) = match &got {
                    None => ("panic", vec![]),
                    Some(Ok(v)) => ("ok", v.iter().map(seg_json).collect()),
                    Some(Err(MatchError::FingerprintTooLong { index: 0 })) => ("long0", vec![]),
                    Some(Err(MatchError::FingerprintTooLong { index: 1 })) => ("long1", vec![]),
                    #[allow(unreachable_patterns)]
                    Some(Err(_)) => ("error", vec![]),
                };
                rec = format!(
                    "{{\"ev\":\"matchlen\",\"tag\":\"{}\",\"n1\":{n1},\"n2\":{n2},\"tail\":{tail},\"res\":\"{res}\",\"segs\":{}}}",
                    words[1],
                    json_list(segs)
                );
            }
            // matchlong TAG CFG N1 N2 D RUNS PERIOD SEED: long fingerprints of random items that meet at the relative
            // offset D (item i of the first against i - D of the second) with the bit errors RUNS, a list
            // of LEN:BITS. Hashes are random, or repeat with PERIOD (0: random).
            "matchlong" => {
                let cfg = &w.cfgs[&num(2)];
                let (n1, n2) = (num(3), num(4));
                let d: isize = words[5].parse().unwrap();
                let runs: Vec<(usize, u32)> = words[6]
                    .split(',')
                    .map(|x| {
                        let (n, e) = x.split_once(':').unwrap();
                        (n.parse().unwrap(), e.parse().unwrap())
                    })
                    .collect();
                let period = num(7);
                let mut r = Rng::new(num(8) as u64);
                let mut one = |i: usize| -> u32 {
                    let h = if period == 0 { r.range(0, 4095) as usize } else { (i % period) * 1021 % 4096 };
                    (h as u32) << 20 | (r.range(0, 0xf_ffff) as u32)
                };
                let a: Vec<u32> = (0..n1).map(&mut one).collect();
                let base = if period == 0 { 0 } else { d.rem_euclid(period as isize) as usize };
                let mut b: Vec<u32> = (0..n2).map(|i| one(i + base)).collect();
                let (o1, o2) = (d.max(0) as usize, (-d).max(0) as usize);
                let mut at = 0;
                for (n, e) in &runs {
                    for i in at..at + n {
                        b[o2 + i] = a[o1 + i] ^ ((1u32 << e) - 1);
                    }
                    at += n;
                }
                assert_eq!(at, (n1 - o1).min(n2 - o2), "bad: {line}");
                // coincidences, counted per hash: at D, at the best offset above and at the best below
                let mut by: Vec<Vec<usize>> = vec![vec![]; 4096];
                for (j, x) in b.iter().enumerate() {
                    by[(x >> 20) as usize].push(j);
                }
                let mut count = vec![0u32; n1 + n2];
                for (i, x) in a.iter().enumerate() {
                    for j in &by[(x >> 20) as usize] {
                        count[i + n2 - j] += 1;
                    }
                }
                let mid = (d + n2 as isize) as usize;
                let below = count[..mid].iter().max().unwrap_or(&0);
                let above = count[mid + 1..].iter().max().unwrap_or(&0);
                let got = quiet(|| match_fingerprints(&a, &b, cfg));
                let (res, segs) = match &got {
                    None => ("panic", vec![]),
                    Some(Ok(v)) => ("ok", v.iter().map(seg_json).collect()),
                    Some(Err(_)) => ("error", vec![]),
                };
                rec = format!(
                    "{{\"ev\":\"matchlong\",\"tag\":\"{}\",\"n1\":{n1},\"n2\":{n2},\"d\":{d},\"period\":{period},\"runs\":{},\"same\":{},\"above\":{above},\"below\":{below},\"res\":\"{res}\",\"segs\":{}}}",
                    words[1],
                    json_list(runs.iter().map(|(n, e)| format!("[{n},{e}]"))),
                    count[mid],
                    json_list(segs)
                );
            }
            // segtime TAG CFG O1 O2 LEN: times in microseconds
            "segtime" => {
                let cfg = &w.cfgs[&num(2)];
                let s = Segment {
                    offset1: num(3),
                    offset2: num(4),
                    items_count: num(5),
                    score: 0.5,
                };
                let v = quiet(|| {
                    [
                        micro(s.start1(cfg)),
                        micro(s.end1(cfg)),
                        micro(s.start2(cfg)),
                        micro(s.end2(cfg)),
                        micro(s.duration(cfg)),
                    ]
                });
                rec = format!(
                    "{{\"ev\":\"segtime\",\"tag\":\"{}\",\"cfg\":{},\"o1\":{},\"o2\":{},\"len\":{},\"us\":{}}}",
                    words[1],
                    num(2),
                    s.offset1,
                    s.offset2,
                    s.items_count,
                    // seconds and microseconds apart: TLC integers have 32 bits
                    json_list(v.unwrap_or([-1; 5]).iter().map(|x| format!(
                        "[{},{}]",
                        x.div_euclid(1_000_000),
                        x.rem_euclid(1_000_000)
                    )))
                );
            }
            "reset" => {
                w.slots.clear();
            }
            // wav PATH RATE CH SRC [FORM]: write a file from an interleaved source (FORM: see fn wav)
            "wav" => {
                let data = &w.srcs[&num(4)];
                let form = words.get(5).map_or("16", |x| x);
                std::fs::write(words[1], wav(words[2].parse().unwrap(), num(3) as u16, data, form)).unwrap();
            }
            // flac PATH RATE CH SRC SIZES [BAD]: the same as FLAC with blocks of the given sizes, again and again
            "flac" => {
                let data = &w.srcs[&num(4)];
                let sizes: Vec<usize> = words[5].split(',').map(|x| x.parse().unwrap()).collect();
                std::fs::write(words[1], flac(words[2].parse().unwrap(), num(3), data, &sizes, words.get(6).map(|x| x.parse().unwrap()))).unwrap();
            }
            // mkv PATH RATE CH SRC SIZES TRACKS PATTERN [BAD]: FLAC in Matroska. TRACKS, a word of letters, says
            // what tracks there are: m the audio, s subtitles, u audio of an unknown codec, o other FLAC audio.
            "mkv" => {
                let sizes: Vec<usize> = words[5].split(',').map(|x| x.parse().unwrap()).collect();
                let pattern: Vec<usize> = words[7].split(',').map(|x| x.parse().unwrap()).collect();
                let mut tracks = vec![];
                for (k, c) in words[6].chars().enumerate() {
                    // numbers in no order
                    let number = [9, 2, 5, 1, 7][k % 5];
                    tracks.push(match c {
                        'm' => {
                            let (rate, ch) = (words[2].parse().unwrap(), num(3));
                            let (h, packets) = flac_parts(rate, ch, &w.srcs[&num(4)], &sizes, words.get(8).map(|x| x.parse().unwrap()));
                            MkvTrack { number, codec: "A_FLAC", audio: Some((rate, ch)), private: h, packets }
                        }
                        'o' => {
                            let mut r = Rng::new(7);
                            let v: Vec<i16> = (0..60000).map(|_| r.range(-9000, 9000) as i16).collect();
                            // one of its packets does not decode: nobody's business
                            let (h, packets) = flac_parts(32000, 2, &v, &[700, 1152], Some(700));
                            MkvTrack { number, codec: "A_FLAC", audio: Some((32000, 2)), private: h, packets }
                        }
                        'u' => MkvTrack { number, codec: "A_AC3", audio: Some((44100, 2)), private: vec![], packets: vec![vec![11, 119, 5, 6, 7]; 3] },
                        's' => MkvTrack { number, codec: "S_TEXT/UTF8", audio: None, private: vec![], packets: vec![b"words".to_vec(), b"more".to_vec()] },
                        _ => panic!("bad: {line}"),
                    });
                }
                let main = words[6].find('m').unwrap_or(0);
                std::fs::write(words[1], mkv(&tracks, main, &pattern)).unwrap();
            }
            "echo" => rec = line["echo ".len()..].to_string(),
            x => panic!("unknown command {x}"),
        }
        if !rec.is_empty() {
            writeln!(out, "{rec}").unwrap();
        }
        if words[0] != "src" {
            out.flush().unwrap();
        }
        if rec.starts_with("{\"ev\":\"cfgpanic\"") {
            break;
        }
    }
}
