//! Workload generators. Boundary-heavy; constants that occur in the library's sources are mined
//! at run time and used as a dictionary (like a fuzzer's), so that special-cased values are met.
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Lits {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}

static LITS: OnceLock<Lits> = OnceLock::new();

pub fn lits() -> &'static Lits {
    LITS.get_or_init(|| {
        let mut l = Lits::default();
        if cfg!(miri) {
            return l;
        }
        let root = std::env::var("IL2_SRC").unwrap_or_else(|_| "/repo/src".to_string());
        mine(std::path::Path::new(&root), &mut l);
        l.ints.sort_unstable();
        l.ints.dedup();
        l.strs.sort();
        l.strs.dedup();
        l
    })
}

fn mine(p: &std::path::Path, l: &mut Lits) {
    let mut es: Vec<_> = match std::fs::read_dir(p) {
        Ok(d) => d.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    es.sort();
    for e in es {
        let name = e.file_name().and_then(|x| x.to_str()).unwrap_or("").to_string();
        if e.is_dir() {
            mine(&e, l);
        } else if name.ends_with(".rs") && name != "tests.rs" && name != "test_samples.rs" {
            if let Ok(s) = std::fs::read_to_string(&e) {
                mine_text(&s, l);
            }
        }
    }
}

fn mine_text(s: &str, l: &mut Lits) {
    for line in s.lines() {
        let t = line.trim_start();
        if t.starts_with("//") || t.starts_with("/*") || t.starts_with('*') {
            continue;
        }
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut prev_ident = false;
        // products, shifts and sums of constants count as one (64 * 1024, (1 << 16) - 1)
        let mut before: Option<(u64, usize)> = None;
        while i < b.len() {
            let c = b[i];
            if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
                break;
            }
            if c == '"' {
                let mut w = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' && i + 1 < b.len() {
                        i += 1;
                    }
                    w.push(b[i]);
                    i += 1;
                }
                if w.len() <= 64 {
                    l.strs.push(w);
                }
                i += 1;
                prev_ident = false;
                continue;
            }
            if c.is_ascii_digit() && !prev_ident {
                let mut w = String::new();
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    w.push(b[i]);
                    i += 1;
                }
                w.retain(|c| c != '_');
                for suf in ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8"] {
                    if let Some(x) = w.strip_suffix(suf) {
                        w = x.to_string();
                        break;
                    }
                }
                let v = if let Some(h) = w.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = w.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    w.parse().ok()
                };
                if let Some(v) = v {
                    l.ints.push(v);
                    let mut v = v;
                    if let Some((a, at)) = before {
                        let op: String = b[at..i - 1].iter().filter(|c| !c.is_whitespace() && **c != '(' && **c != ')').collect();
                        let f = match op.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>().as_str() {
                            "*" => a.checked_mul(v),
                            "<<" if v < 64 => a.checked_shl(v as u32),
                            "+" => a.checked_add(v),
                            "-" => a.checked_sub(v),
                            _ => None,
                        };
                        if let Some(f) = f {
                            l.ints.push(f);
                            v = f;
                        }
                    }
                    before = Some((v, i));
                }
                continue;
            }
            prev_ident = c.is_ascii_alphanumeric() || c == '_';
            i += 1;
        }
    }
}

/// First value of each ILInt length.
pub fn ilint_edges() -> [u64; 8] {
    let mut e = [0u64; 8];
    let mut base: u128 = 248;
    for (i, x) in e.iter_mut().enumerate() {
        *x = base as u64;
        base = 248 + (1u128 << (8 * (i + 1)));
    }
    e
}

pub fn near(rng: &mut Rng, v: u64, d: u64) -> u64 {
    v.wrapping_add(rng.below(2 * d + 1)).wrapping_sub(d)
}

pub fn u64_any(rng: &mut Rng) -> u64 {
    match rng.below(16) {
        0 | 1 => rng.below(256),
        2 => near(rng, 248, 4),
        3 | 4 => {
            let e = *rng.pick(&ilint_edges());
            near(rng, e, 2)
        }
        5 | 6 => {
            let s = rng.below(64);
            near(rng, 1u64 << s, 2)
        }
        7 => u64::MAX - rng.below(300),
        8 => near(rng, MAX_TAG, 2),
        9 | 10 => {
            let l = &lits().ints;
            if l.is_empty() {
                rng.u64()
            } else {
                let v = *rng.pick(l);
                near(rng, v, 1)
            }
        }
        11 | 12 => rng.u64() >> rng.below(64),
        13 => {
            // repeated or sparse byte patterns
            let mut b = [0u8; 8];
            let x = *rng.pick(&[0u8, 0xff, 0x80, 0x7f, 0xf8, 1]);
            let y = *rng.pick(&[0u8, 0xff, 0x80, 0x7f, 0xf7, 1]);
            for c in b.iter_mut() {
                *c = if rng.bool() { x } else { y };
            }
            u64::from_be_bytes(b)
        }
        14 => rng.below(70000),
        _ => rng.u64(),
    }
}

pub fn i64_any(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 => unzigzag(u64_any(rng)),
        1 => (u64_any(rng) as i64).wrapping_neg(),
        2 => i64::MIN.wrapping_add(rng.below(300) as i64),
        3 => i64::MAX - rng.below(300) as i64,
        _ => u64_any(rng) as i64,
    }
}

/// A length up to max, biased to the places where headers change size, buffers fill, ...
pub fn len(rng: &mut Rng, max: usize) -> usize {
    let max = if cfg!(miri) { max.min(40) } else { max };
    let v = match rng.below(14) {
        0 => 0,
        1 | 2 | 3 => rng.below(9),
        4 | 5 => rng.below(40),
        6 => near(rng, 248, 3),
        7 => near(rng, 504, 3),
        8 => near(rng, 512, 3),
        9 => {
            let k = *rng.pick(&[64u64, 128, 256, 1024, 2048, 4096, 8192, 32768, 65536, 65784]);
            near(rng, k, 2)
        }
        10 | 11 => {
            let l = &lits().ints;
            if l.is_empty() {
                rng.below(1000)
            } else {
                let v = *rng.pick(l);
                near(rng, v, 1)
            }
        }
        12 => rng.below(300),
        _ => rng.below(2000),
    };
    if v as usize > max {
        rng.us(max + 1)
    } else {
        v as usize
    }
}

/// A length of tens of thousands up to max, biased to powers of two and to what the sources name.
pub fn big_len(rng: &mut Rng, max: usize) -> usize {
    if cfg!(miri) {
        return rng.us(max.min(60) + 1);
    }
    let v = match rng.below(8) {
        0 | 1 | 2 => near(rng, 65536, 3),
        3 => {
            let s = 12 + rng.below(9);
            near(rng, 1 << s, 3)
        }
        4 => near(rng, 65784, 3),
        5 => {
            let b: Vec<u64> = lits().ints.iter().cloned().filter(|x| *x >= 2000 && *x <= max as u64).collect();
            if b.is_empty() {
                rng.below(max as u64 + 1)
            } else {
                let v = *rng.pick(&b);
                near(rng, v, 2)
            }
        }
        6 => 65536 + rng.below(9000),
        _ => rng.below(max as u64 + 1),
    };
    (v as usize).min(max)
}

/// A tag with tens of thousands of entries.
pub fn crowd(rng: &mut Rng, count: usize) -> Node {
    let count = if cfg!(miri) { count.min(20) } else { count };
    let small = |rng: &mut Rng| match rng.below(4) {
        0 => Node { id: 0, v: Val::Null },
        1 => Node { id: 3, v: Val::U8(rng.u64() as u8) },
        2 => Node { id: 16, v: Val::Bytes(vec![]) },
        _ => Node { id: 1, v: Val::Bool(rng.bool()) },
    };
    match rng.below(6) {
        0 => Node { id: 20, v: Val::IntArr((0..count).map(|_| u64_any(rng)).collect()) },
        1 => Node { id: 25, v: Val::Oid((0..count).map(|_| rng.below(300)).collect()) },
        2 => Node { id: 21, v: Val::TagArr((0..count).map(|_| small(rng)).collect()) },
        3 => Node { id: 22, v: Val::Seq((0..count).map(|_| small(rng)).collect()) },
        4 => Node { id: 30, v: Val::Dict((0..count).map(|i| (format!("{:x}", i).into_bytes(), small(rng))).collect()) },
        _ => Node { id: 31, v: Val::StrDict((0..count).map(|i| (format!("{:x}", i).into_bytes(), String::from(if i % 3 == 0 { "x" } else { "" }))).collect()) },
    }
}

/// One value of about `size` bytes, of any kind that can be that large.
/// The size of a large payload: some way around or between powers of two up to 2^22, now and then up to 2^25.
pub fn bulk_len(rng: &mut Rng) -> usize {
    let k = 1u64 << if rng.one_in(8) { 22 + rng.below(4) } else { 16 + rng.below(7) };
    if rng.bool() { near(rng, k, 300) as usize } else { (k + rng.below(k)).min(1 << 25) as usize }
}

pub fn bulk(rng: &mut Rng, size: usize, cfg: &Cfg) -> Node {
    let size = if cfg!(miri) { size.min(60) } else { size };
    let kind = rng.below(9);
    let b = rng.bytes(size);
    match kind {
        5 => Node { id: 17, v: Val::Str(long_text(rng, size)) },
        6 => {
            let mut m = BTreeMap::new();
            for i in 0..1 + rng.below(4) {
                let n = size / 4 + rng.us(40);
                m.insert(format!("{}{}", i, long_text(rng, n)).into_bytes(), long_text(rng, n + 1));
            }
            Node { id: 31, v: Val::StrDict(m) }
        }
        7 => {
            let mut m = BTreeMap::new();
            for i in 0..1 + rng.below(4) {
                let n = size / 4 + rng.us(40);
                m.insert(format!("{}{}", i, long_text(rng, n)).into_bytes(), leaf(rng, cfg));
            }
            Node { id: 30, v: Val::Dict(m) }
        }
        8 if !cfg.reg.strict && !cfg.reg.kinds.contains_key(&999) => Node { id: 999, v: Val::Raw(b) },
        0 => Node { id: 16, v: Val::Bytes(b) },
        1 => Node { id: 18, v: Val::BigInt(b) },
        2 => Node { id: 17, v: Val::Str(b.iter().map(|x| (x & 0x7f) as char).collect()) },
        3 => Node { id: 20, v: Val::IntArr((0..size / 4).map(|_| u64_any(rng)).collect()) },
        _ => Node { id: 19, v: Val::BigDec(-3, b) },
    }
}

/// A length around those of the pieces that streams are handled in.
pub fn piece_len(rng: &mut Rng, max: usize) -> usize {
    let k = 1u64 << (8 + rng.below(10));
    let v = match rng.below(3) {
        0 => near(rng, k, 4),
        1 => k + rng.below(k),
        _ => (1 + rng.below(8)) * 4096 + rng.below(5),
    };
    (v as usize).min(max)
}

const CHARS: [char; 30] = [
    'a', 'b', 'A', 'z', '0', ' ', '\0', '\n', '"', '\\', '/', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}',
    '\u{800}', '中', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀',
    '\u{10ffff}', '\u{301}', '\u{202e}', '~', '_',
];

pub fn string(rng: &mut Rng, max: usize) -> String {
    let n = len(rng, max);
    if rng.one_in(8) {
        let l = &lits().strs;
        if !l.is_empty() {
            return rng.pick(l).clone();
        }
    }
    let mut s = String::new();
    match rng.below(5) {
        4 => return long_text(rng, n),
        0 => {
            while s.len() < n {
                s.push((b'a' + rng.below(26) as u8) as char)
            }
        }
        1 => {
            while s.len() < n {
                s.push(*rng.pick(&CHARS))
            }
        }
        2 => {
            while s.len() < n {
                let c = match rng.below(4) {
                    0 => rng.below(0x80) as u32,
                    1 => 0x80 + rng.below(0x780) as u32,
                    2 => 0x800 + rng.below(0xf800) as u32,
                    _ => 0x10000 + rng.below(0x100000) as u32,
                };
                if let Some(c) = char::from_u32(c) {
                    s.push(c)
                }
            }
        }
        _ => {
            while s.len() < n {
                s.push((0x20 + rng.below(0x5f) as u8) as char)
            }
        }
    }
    while s.len() > n {
        s.pop();
    }
    s
}

/// A well formed message with a dictionary in which keys occur again, short ones and long ones of
/// all kinds of text, possibly deep inside, possibly with a value that is not valid at one of them.
pub fn dup_dict(rng: &mut Rng, c: &Cfg) -> Vec<u8> {
    let text = |b: &[u8], o: &mut Vec<u8>| {
        o.push(17);
        enc_ilint(b.len() as u64, o);
        o.extend_from_slice(b);
    };
    let max = *rng.pick(&[8usize, 40, 40, 130, 700]);
    let keys: Vec<String> = (0..1 + rng.us(4))
        .map(|_| match rng.below(3) {
            0 => key(rng),
            1 => string(rng, max),
            _ => {
                let n = rng.us(max + 1);
                long_text(rng, n)
            }
        })
        .collect();
    let str_dict = rng.bool();
    let n = rng.us(keys.len() * 3) + 1;
    let mut v = Vec::new();
    enc_ilint(n as u64, &mut v);
    for _ in 0..n {
        text(rng.pick(&keys).as_bytes(), &mut v);
        if str_dict {
            let t = string(rng, max);
            text(t.as_bytes(), &mut v);
        } else {
            let mut b = bytes_of(&small_tree(rng, c, 60));
            if rng.one_in(12) {
                mutate(rng, &mut b, &[]);
            }
            v.extend_from_slice(&b);
        }
    }
    let mut m = vec![if str_dict { 31 } else { 30 }];
    enc_ilint(v.len() as u64, &mut m);
    m.extend_from_slice(&v);
    for _ in 0..rng.below(3) {
        let mut o = vec![22];
        enc_ilint(m.len() as u64, &mut o);
        o.extend_from_slice(&m);
        m = o;
    }
    m
}

/// One character of several bytes over and over, at any alignment: every place where text might
/// be cut (buffers, blocks) falls inside a character for some of them.
pub fn long_text(rng: &mut Rng, n: usize) -> String {
    let c = *rng.pick(&['é', '中', '😀', '\u{10ffff}', '\u{ffff}']);
    let mut s = String::with_capacity(n + 8);
    for _ in 0..rng.below(4) {
        s.push('a');
    }
    while s.len() < n {
        s.push(c);
    }
    while s.len() > n {
        s.pop();
    }
    s
}

pub fn key(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 | 2 => {
            // keys that are prefixes of each other, or differ in one place only
            let mut s = String::new();
            for _ in 0..rng.below(5) {
                s.push(*rng.pick(&['a', 'b', 'é', '\u{ffff}', '\u{10000}', 'B', '\0']));
            }
            s
        }
        3 => format!("k{}", rng.below(1200)),
        4 if rng.one_in(6) => {
            if rng.bool() {
                let n = near(rng, 250, 8) as usize;
                long_text(rng, n)
            } else {
                string(rng, 600)
            }
        }
        _ => string(rng, 24),
    }
}

/// Changes one detail of a value, most often without changing its size.
pub fn nudge(rng: &mut Rng, n: &mut Node) {
    fn arr<T: Clone>(rng: &mut Rng, v: &mut Vec<T>, change: &dyn Fn(&mut Rng, &mut T), fixed: bool) {
        let len = v.len();
        match rng.below(8) {
            0 if !fixed && len > 0 => {
                v.remove(rng.us(len));
            }
            1 if !fixed && len > 0 => {
                let x = v[rng.us(len)].clone();
                v.insert(rng.us(len + 1), x);
            }
            2 if len > 1 => {
                let (a, b) = (rng.us(len), rng.us(len));
                v.swap(a, b)
            }
            _ if len > 0 => {
                // the ends as often as all that lies between them
                let i = match rng.below(4) {
                    0 => 0,
                    1 => len - 1,
                    _ => rng.us(len),
                };
                change(rng, &mut v[i])
            }
            _ => {}
        }
    }
    fn text(rng: &mut Rng, s: &mut String) {
        let mut c: Vec<char> = s.chars().collect();
        arr(rng, &mut c, &|r, c| *c = if c.is_ascii() { (b'a' + r.below(26) as u8) as char } else { *r.pick(&CHARS) }, false);
        *s = c.into_iter().collect();
    }
    let byte = |r: &mut Rng, x: &mut u8| *x ^= 1 << r.below(8);
    let word = |r: &mut Rng, x: &mut u64| *x ^= 1 << r.below(64);
    match &mut n.v {
        Val::Null => {}
        Val::Bool(x) => *x = !*x,
        Val::I8(x) => *x ^= 1 << rng.below(8),
        Val::U8(x) => *x ^= 1 << rng.below(8),
        Val::I16(x) => *x ^= 1 << rng.below(16),
        Val::U16(x) => *x ^= 1 << rng.below(16),
        Val::I32(x) => *x ^= 1 << rng.below(32),
        Val::U32(x) => *x ^= 1 << rng.below(32),
        Val::I64(x) | Val::SILInt(x) => *x ^= 1 << rng.below(64),
        Val::U64(x) | Val::ILInt(x) => *x ^= 1 << rng.below(64),
        Val::F32(x) => *x ^= 1 << rng.below(32),
        Val::F64(x) => *x ^= 1 << rng.below(64),
        Val::B128(x) => x[rng.us(16)] ^= 1 << rng.below(8),
        Val::Bytes(x) | Val::BigInt(x) | Val::Raw(x) => arr(rng, x, &byte, false),
        Val::PBlob(x) => arr(rng, x, &byte, true),
        Val::BigDec(s, x) => {
            if rng.bool() {
                *s ^= 1 << rng.below(32)
            } else {
                arr(rng, x, &byte, false)
            }
        }
        Val::Str(s) => text(rng, s),
        Val::IntArr(x) | Val::Oid(x) => arr(rng, x, &word, false),
        Val::Range(s, c) => {
            if rng.bool() {
                *s ^= 1 << rng.below(64)
            } else {
                *c ^= 1 << rng.below(16)
            }
        }
        Val::Version(x) => x[rng.us(4)] ^= 1 << rng.below(32),
        Val::PRec(a, b, r) => match rng.below(3) {
            0 => *a ^= 1 << rng.below(16),
            1 => *b ^= 1 << rng.below(64),
            _ => arr(rng, r, &byte, true),
        },
        Val::PNest(x) => nudge(rng, x),
        Val::TagArr(c) | Val::Seq(c) => arr(rng, c, &|r, x| nudge(r, x), false),
        Val::Dict(m) => {
            if !m.is_empty() {
                let k = m.keys().nth(rng.us(m.len())).unwrap().clone();
                if rng.one_in(4) {
                    let x = m.remove(&k).unwrap();
                    let mut s = String::from_utf8(k).unwrap();
                    text(rng, &mut s);
                    m.insert(s.into_bytes(), x);
                } else {
                    nudge(rng, m.get_mut(&k).unwrap())
                }
            }
        }
        Val::StrDict(m) => {
            if !m.is_empty() {
                let k = m.keys().nth(rng.us(m.len())).unwrap().clone();
                if rng.one_in(4) {
                    let x = m.remove(&k).unwrap();
                    let mut s = String::from_utf8(k).unwrap();
                    text(rng, &mut s);
                    m.insert(s.into_bytes(), x);
                } else {
                    text(rng, m.get_mut(&k).unwrap())
                }
            }
        }
    }
}

pub fn bytes(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = len(rng, max);
    match rng.below(4) {
        0 => vec![*rng.pick(&[0u8, 0xff, 0x80, 1, 17]); n],
        1 => (0..n).map(|i| i as u8).collect(),
        _ => rng.bytes(n),
    }
}

pub fn f32_bits(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => *rng.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffbf_ffff, 0x7fff_ffff, 1, 0x8000_0001, 0x3f80_0000]),
        1 => 0x7f80_0000 | (rng.u64() as u32 & 0x807f_ffff),
        _ => rng.u64() as u32,
    }
}

pub fn f64_bits(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => *rng.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff0 << 48) | 1, u64::MAX, 1, 0x3ff0 << 48]),
        1 => (0x7ff0 << 48) | (rng.u64() & 0x800f_ffff_ffff_ffff),
        _ => rng.u64(),
    }
}

// ---------------------------------------------------------------- registries

pub fn custom_id(rng: &mut Rng) -> u64 {
    loop {
        let id = match rng.below(6) {
            0 => 32 + rng.below(16),
            1 => *rng.pick(&[26, 27, 28, 29, 32, 246, 247, 248, 249, 503, 504, 505, 65783, 65784, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63]),
            2 => 1000 + rng.below(10),
            _ => u64_any(rng),
        };
        if id > 31 || (26..30).contains(&id) {
            return id;
        }
    }
}

const ID_FREE: [Kind; 29] = [
    Kind::Null, Kind::Bool, Kind::I8, Kind::U8, Kind::I16, Kind::U16, Kind::I32, Kind::U32,
    Kind::I64, Kind::U64, Kind::F32, Kind::F64, Kind::B128, Kind::ILInt, Kind::SILInt, Kind::Str,
    Kind::BigDec, Kind::IntArr, Kind::TagArr, Kind::Seq, Kind::Range, Kind::Version, Kind::Oid,
    Kind::Dict, Kind::StrDict, Kind::Raw, Kind::PBlob, Kind::PRec, Kind::PNest,
];

pub fn any_kind(rng: &mut Rng) -> Kind {
    *rng.pick(&ID_FREE)
}

/// Standard registry, often with custom registrations on top.
pub fn registry(rng: &mut Rng) -> Registry {
    let mut r = Registry::standard(rng.bool());
    if rng.one_in(3) {
        return r;
    }
    for _ in 0..rng.below(8) {
        let id = custom_id(rng);
        let k = any_kind(rng);
        r.kinds.insert(id, k);
    }
    r
}

// ---------------------------------------------------------------- trees

pub struct Cfg<'a> {
    pub reg: &'a Registry,
    pub max_payload: usize,
    /// probability 1/n of an id the registry does not know (raw tags), non-strict only
    pub raw_one_in: u64,
}

impl<'a> Cfg<'a> {
    pub fn new(reg: &'a Registry) -> Self {
        Cfg { reg, max_payload: 600, raw_one_in: 8 }
    }
}

fn is_container(k: Kind) -> bool {
    matches!(k, Kind::TagArr | Kind::Seq | Kind::Dict | Kind::PNest)
}

fn pick_id(rng: &mut Rng, c: &Cfg, containers: bool, leaves: bool) -> Option<(u64, Kind)> {
    if leaves && !c.reg.strict && rng.one_in(c.raw_one_in) {
        for _ in 0..4 {
            let id = custom_id(rng);
            if c.reg.kinds.get(&id).is_none() {
                return Some((id, Kind::Raw));
            }
        }
    }
    let v: Vec<(u64, Kind)> = c
        .reg
        .kinds
        .iter()
        .map(|(i, k)| (*i, *k))
        .filter(|(_, k)| if is_container(*k) { containers } else { leaves })
        .collect();
    if v.is_empty() {
        return None;
    }
    // custom registrations are few: give them weight
    let cust: Vec<_> = v.iter().filter(|(i, _)| *i > 31).cloned().collect();
    if !cust.is_empty() && rng.one_in(3) {
        return Some(*rng.pick(&cust));
    }
    Some(*rng.pick(&v))
}

pub fn leaf_val(rng: &mut Rng, k: Kind, max: usize) -> Val {
    match k {
        Kind::Null => Val::Null,
        Kind::Bool => Val::Bool(rng.bool()),
        Kind::I8 => Val::I8(rng.u64() as i8),
        Kind::U8 => Val::U8(rng.u64() as u8),
        Kind::I16 => Val::I16(i64_any(rng) as i16),
        Kind::U16 => Val::U16(u64_any(rng) as u16),
        Kind::I32 => Val::I32(i64_any(rng) as i32),
        Kind::U32 => Val::U32(u64_any(rng) as u32),
        Kind::I64 => Val::I64(i64_any(rng)),
        Kind::U64 => Val::U64(u64_any(rng)),
        Kind::F32 => Val::F32(f32_bits(rng)),
        Kind::F64 => Val::F64(f64_bits(rng)),
        Kind::B128 => {
            let mut b = [0u8; 16];
            rng.fill(&mut b);
            Val::B128(b)
        }
        Kind::ILInt => Val::ILInt(u64_any(rng)),
        Kind::SILInt => Val::SILInt(i64_any(rng)),
        Kind::Bytes => Val::Bytes(bytes(rng, max)),
        Kind::BigInt => Val::BigInt(bytes(rng, max)),
        Kind::Raw => Val::Raw(bytes(rng, max)),
        Kind::PBlob => Val::PBlob(bytes(rng, max)),
        Kind::Str => Val::Str(string(rng, max)),
        Kind::BigDec => Val::BigDec(i64_any(rng) as i32, bytes(rng, max)),
        Kind::IntArr | Kind::Oid => {
            let n = len(rng, (max / 2).max(3));
            let v: Vec<u64> = (0..n).map(|_| u64_any(rng)).collect();
            if k == Kind::Oid {
                Val::Oid(v)
            } else {
                Val::IntArr(v)
            }
        }
        Kind::Range => Val::Range(u64_any(rng), u64_any(rng) as u16),
        Kind::Version => {
            let mut f = || match rng.below(3) {
                0 => rng.below(100) as i32,
                1 => i64_any(rng) as i32,
                _ => rng.u64() as i32,
            };
            Val::Version([f(), f(), f(), f()])
        }
        Kind::StrDict => {
            let n = len(rng, (max / 16).max(3));
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let kk = key(rng);
                let s = string(rng, 24.min(max));
                m.insert(kk.into_bytes(), s);
            }
            Val::StrDict(m)
        }
        Kind::PRec => Val::PRec(rng.u64() as u16, u64_any(rng), bytes(rng, max)),
        Kind::TagArr => Val::TagArr(vec![]),
        Kind::Seq => Val::Seq(vec![]),
        Kind::Dict => Val::Dict(BTreeMap::new()),
        Kind::PNest => Val::PNest(Box::new(Node { id: 0, v: Val::Null })),
    }
}

pub fn leaf(rng: &mut Rng, c: &Cfg) -> Node {
    match pick_id(rng, c, false, true) {
        Some((id, Kind::PBlob)) if id < 16 => {
            // a payload in the place of an implicit tag has the size of that id
            match crate::model::implicit_size(id) {
                Some(n) => Node { id, v: Val::PBlob(rng.bytes(n)) },
                None => Node { id: 22, v: Val::Seq(vec![]) },
            }
        }
        Some((id, k)) => Node { id, v: leaf_val(rng, k, c.max_payload) },
        None => Node { id: 22, v: Val::Seq(vec![]) },
    }
}

fn container(rng: &mut Rng, id: u64, k: Kind, ch: Vec<Node>) -> Node {
    let v = match k {
        Kind::TagArr => Val::TagArr(ch),
        Kind::Dict => {
            let mut m = BTreeMap::new();
            let many = ch.len() > 20;
            for (i, n) in ch.into_iter().enumerate() {
                let kk = if many { format!("{}{}", i, key(rng)) } else { key(rng) };
                m.insert(kk.into_bytes(), n);
            }
            Val::Dict(m)
        }
        Kind::PNest => match ch.into_iter().next() {
            Some(n) => Val::PNest(Box::new(n)),
            None => Val::PNest(Box::new(Node { id: 0, v: Val::Null })),
        },
        _ => Val::Seq(ch),
    };
    Node { id, v }
}

/// A leaf without a value, when there is one.
fn hollow(rng: &mut Rng, c: &Cfg) -> Node {
    let empty = Cfg { reg: c.reg, max_payload: 0, raw_one_in: c.raw_one_in };
    for _ in 0..6 {
        let n = leaf(rng, &empty);
        if crate::model::value_bytes(&n).is_empty() {
            return n;
        }
    }
    leaf(rng, &empty)
}

pub fn node(rng: &mut Rng, c: &Cfg, depth: usize, budget: &mut usize) -> Node {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || rng.one_in(3) {
        return leaf(rng, c);
    }
    match pick_id(rng, c, true, false) {
        None => leaf(rng, c),
        Some((id, k)) => {
            let n = match rng.below(6) {
                0 => 0,
                1 => 1,
                _ => rng.range(1, 6),
            };
            let ch: Vec<Node> = match rng.below(24) {
                // all of a kind
                0 => vec![leaf(rng, c); 2 + rng.us(30)],
                1 => {
                    let n = 2 + rng.us(30);
                    (0..n).map(|_| hollow(rng, c)).collect()
                }
                _ => (0..n).map(|_| node(rng, c, depth - 1, budget)).collect(),
            };
            container(rng, id, k, ch)
        }
    }
}

/// A chain of containers `depth` deep around a small leaf.
pub fn chain(rng: &mut Rng, c: &Cfg, depth: usize) -> Node {
    let small = Cfg { reg: c.reg, max_payload: 8, raw_one_in: 8 };
    let mut n = leaf(rng, &small);
    for _ in 1..depth {
        let (id, k) = match pick_id(rng, c, true, false) {
            Some(x) => x,
            None => return n,
        };
        let mut ch = vec![n];
        if depth < 40 && rng.one_in(4) && k != Kind::PNest {
            let l = leaf(rng, &small);
            if rng.bool() {
                ch.push(l);
            } else {
                ch.insert(0, l);
            }
        }
        n = container(rng, id, k, ch);
    }
    n
}

/// A container with very many small children.
pub fn wide(rng: &mut Rng, c: &Cfg, count: usize) -> Node {
    let count = if cfg!(miri) { count.min(12) } else { count };
    let small = Cfg { reg: c.reg, max_payload: 3, raw_one_in: 8 };
    match pick_id(rng, c, true, false) {
        Some((id, k)) if k != Kind::PNest => {
            let ch = match rng.below(4) {
                0 => vec![leaf(rng, &small); count],
                1 => (0..count).map(|_| hollow(rng, &small)).collect(),
                _ => (0..count).map(|_| leaf(rng, &small)).collect(),
            };
            container(rng, id, k, ch)
        }
        _ => {
            let v: Vec<u64> = (0..count).map(|_| u64_any(rng)).collect();
            if c.reg.kinds.get(&20) == Some(&Kind::IntArr) {
                Node { id: 20, v: Val::IntArr(v) }
            } else {
                leaf(rng, c)
            }
        }
    }
}

/// Deepest nesting the checks rely on being accepted.
pub const DEEP: usize = if cfg!(miri) { 24 } else { 200 };

pub fn tree(rng: &mut Rng, c: &Cfg) -> Node {
    if cfg!(miri) {
        return small_tree(rng, c, 120);
    }
    match rng.below(20) {
        0 => {
            let d = rng.range(6, 30) as usize;
            chain(rng, c, d)
        }
        1 => {
            let d = if rng.one_in(4) { DEEP - rng.us(3) } else { rng.range(DEEP.min(30) as u64 - 6, DEEP as u64) as usize };
            chain(rng, c, d)
        }
        2 => {
            let n = *rng.pick(&[246, 247, 248, 249, 250, 255, 256, 257, 503, 504, 505]);
            wide(rng, c, n)
        }
        3 => {
            let n = len(rng, 700);
            wide(rng, c, n)
        }
        4 => {
            let big = Cfg { reg: c.reg, max_payload: c.max_payload.max(70_000), raw_one_in: 8 };
            let mut l = leaf(rng, &big);
            if rng.bool() {
                if let Some((id, k)) = pick_id(rng, c, true, false) {
                    l = container(rng, id, k, vec![l]);
                }
            }
            l
        }
        5 | 6 | 7 | 8 => leaf(rng, c),
        9 => {
            let mut b = 200;
            node(rng, &Cfg { reg: c.reg, max_payload: 16, raw_one_in: 8 }, 8, &mut b)
        }
        _ => {
            let mut b = 40;
            let m = c.max_payload.min(*rng.pick(&[4usize, 16, 64, 300, 600]));
            node(rng, &Cfg { reg: c.reg, max_payload: m, raw_one_in: c.raw_one_in }, 4, &mut b)
        }
    }
}

/// A tree whose encoding is small, for work that is quadratic in it.
pub fn small_tree(rng: &mut Rng, c: &Cfg, max_bytes: usize) -> Node {
    let max_bytes = if cfg!(miri) { max_bytes.min(120) } else { max_bytes };
    for _ in 0..6 {
        let m = *rng.pick(&[2usize, 8, 24]);
        let cc = Cfg { reg: c.reg, max_payload: m, raw_one_in: c.raw_one_in };
        let n = match rng.below(8) {
            0 => {
                let d = rng.range(3, 20) as usize;
                chain(rng, &cc, d)
            }
            1 | 2 => leaf(rng, &cc),
            _ => {
                let mut b = 12;
                node(rng, &cc, 4, &mut b)
            }
        };
        if bytes_of(&n).len() <= max_bytes {
            return n;
        }
    }
    Node { id: 16, v: Val::Bytes(rng.bytes(5)) }
}

// ---------------------------------------------------------------- hostile bytes

/// Encodes with the `at`-th numeric field (ids, sizes, counts, key headers) replaced.
/// Enclosing sizes follow the bytes really emitted, so that only that field is wrong.
pub struct Tweak {
    pub at: usize,
    pub new: TweakTo,
    pub seen: usize,
    pub hit: bool,
}

#[derive(Clone, Debug)]
pub enum TweakTo {
    Delta(i64),
    Value(u64),
    /// cut or add this many bytes of the value of the at-th tag
    Cut(usize),
    Pad(usize),
    Flip,
    /// valid, but every number that can be is written longer than needed
    Padded,
}

/// v written with `extra` bytes more than needed (as far as the format allows).
pub fn enc_padded(v: u64, extra: usize, o: &mut Vec<u8>) {
    if v < 248 {
        o.push(v as u8);
        return;
    }
    let n = (ilint_len(v) - 1 + extra).min(8);
    o.push((247 + n) as u8);
    let x = v - 248;
    for k in (0..n).rev() {
        o.push(((x >> (8 * k)) & 0xff) as u8);
    }
}

impl Tweak {
    pub fn new(at: usize, new: TweakTo) -> Self {
        Tweak { at, new, seen: 0, hit: false }
    }
    fn field(&mut self, v: u64, o: &mut Vec<u8>) {
        let here = self.seen == self.at;
        self.seen += 1;
        let mut v = v;
        if let TweakTo::Padded = self.new {
            let k = (self.seen * 7 + self.at) % 9;
            if v >= 248 && k > 0 {
                self.hit = true
            }
            return enc_padded(v, k, o);
        }
        if here {
            match self.new {
                TweakTo::Delta(d) => {
                    v = v.wrapping_add(d as u64);
                    self.hit = true
                }
                TweakTo::Value(x) => {
                    self.hit = x != v;
                    v = x
                }
                _ => {}
            }
        }
        enc_ilint(v, o);
    }
    fn body(&mut self, v: &mut Vec<u8>) {
        let here = self.seen == self.at;
        self.seen += 1;
        if here {
            match self.new {
                TweakTo::Cut(n) if !v.is_empty() => {
                    let n = n.min(v.len());
                    let k = v.len() - n;
                    v.truncate(k);
                    self.hit = true
                }
                TweakTo::Pad(n) => {
                    for i in 0..n {
                        v.push((i % 3) as u8);
                    }
                    self.hit = true
                }
                TweakTo::Flip if !v.is_empty() => {
                    let k = self.at % v.len();
                    v[k] ^= 1 << (self.at % 8);
                    self.hit = true
                }
                _ => {}
            }
        }
    }
    fn text(&mut self, s: &[u8], o: &mut Vec<u8>) {
        self.field(17, o);
        let mut b = s.to_vec();
        self.body(&mut b);
        self.field(b.len() as u64, o);
        o.extend_from_slice(&b);
    }
    pub fn node(&mut self, n: &Node, o: &mut Vec<u8>) {
        self.field(n.id, o);
        let mut v = Vec::new();
        match &n.v {
            Val::IntArr(x) | Val::Oid(x) => {
                self.field(x.len() as u64, &mut v);
                for i in x {
                    if let TweakTo::Padded = self.new {
                        enc_padded(*i, (*i % 5) as usize, &mut v)
                    } else {
                        enc_ilint(*i, &mut v)
                    }
                }
            }
            Val::TagArr(c) => {
                self.field(c.len() as u64, &mut v);
                for k in c {
                    self.node(k, &mut v)
                }
            }
            Val::Seq(c) => {
                for k in c {
                    self.node(k, &mut v)
                }
            }
            Val::PNest(k) => self.node(k, &mut v),
            Val::Dict(m) => {
                self.field(m.len() as u64, &mut v);
                for (k, x) in m {
                    self.text(k, &mut v);
                    self.node(x, &mut v)
                }
            }
            Val::StrDict(m) => {
                self.field(m.len() as u64, &mut v);
                for (k, x) in m {
                    self.text(k, &mut v);
                    self.text(x.as_bytes(), &mut v)
                }
            }
            Val::ILInt(x) if matches!(self.new, TweakTo::Padded) => enc_padded(*x, (*x % 4) as usize, &mut v),
            x => enc_val(x, &mut v),
        }
        self.body(&mut v);
        if n.id > 15 {
            self.field(v.len() as u64, o);
        }
        o.extend_from_slice(&v);
    }
}

/// A valid encoding of the tree that is not the shortest one.
pub fn padded(rng: &mut Rng, n: &Node) -> Vec<u8> {
    let mut t = Tweak::new(rng.us(1000) + 1_000_000, TweakTo::Padded);
    let mut o = Vec::new();
    t.node(n, &mut o);
    o
}

pub fn tweaked(rng: &mut Rng, n: &Node) -> Vec<u8> {
    let mut probe = Tweak::new(usize::MAX, TweakTo::Delta(0));
    probe.node(n, &mut Vec::new());
    let total = probe.seen.max(1);
    let mut out = Vec::new();
    for _ in 0..8 {
        let to = match rng.below(10) {
            0 => TweakTo::Delta(1),
            1 | 2 => {
                // the same in the low bits
                let k = match rng.below(6) {
                    0 | 1 => 8,
                    2 => 16,
                    3 => 32,
                    _ => rng.below(63),
                };
                let times = 1 + rng.below(3) as i64;
                TweakTo::Delta((1i64 << k).wrapping_mul(if rng.one_in(4) { -times } else { times }))
            }
            3 => TweakTo::Delta(-1),
            4 => TweakTo::Value(u64_any(rng)),
            5 => TweakTo::Value(rng.below(40)),
            6 => TweakTo::Cut(1 + rng.us(3)),
            7 => TweakTo::Pad(1 + rng.us(3)),
            _ => TweakTo::Flip,
        };
        let mut t = Tweak::new(rng.us(total), to);
        out.clear();
        t.node(n, &mut out);
        if t.hit {
            break;
        }
    }
    out
}

/// Byte-level mutation.
pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..rng.range(1, 4) {
        let n = b.len();
        match rng.below(12) {
            0 if n > 0 => {
                let i = rng.us(n);
                b[i] ^= 1 << rng.below(8);
            }
            1 if n > 0 => {
                let i = rng.us(n);
                b[i] = *rng.pick(&[0u8, 1, 2, 15, 16, 17, 21, 22, 30, 31, 0x7f, 0x80, 0xc2, 0xed, 0xf4, 247, 248, 249, 254, 255]);
            }
            2 => {
                let i = rng.us(n + 1);
                b.insert(i, rng.u64() as u8);
            }
            3 if n > 0 => {
                let i = rng.us(n);
                b.remove(i);
            }
            4 if n > 0 => {
                let i = rng.us(n);
                b.truncate(i);
            }
            5 => {
                let k = 1 + rng.us(9);
                let e = rng.bytes(k);
                b.extend_from_slice(&e);
            }
            6 if n > 1 => {
                let i = rng.us(n);
                let j = i + 1 + rng.us((n - i).min(40));
                let c: Vec<u8> = b[i..j.min(n)].to_vec();
                let at = rng.us(n + 1);
                b.splice(at..at, c);
            }
            7 if !other.is_empty() => {
                let i = rng.us(n + 1);
                let j = rng.us(other.len());
                b.truncate(i);
                b.extend_from_slice(&other[j..]);
            }
            8 | 9 => {
                let i = rng.us(n + 1);
                let v = ilint(u64_any(rng));
                if rng.bool() {
                    b.splice(i..i, v);
                } else {
                    let e = (i + v.len()).min(n);
                    b.splice(i..e, v);
                }
            }
            10 if n > 0 => {
                let i = rng.us(n);
                b[i] = b[i].wrapping_add(1);
            }
            _ if n > 0 => {
                let i = rng.us(n);
                b[i] = b[i].wrapping_sub(1);
            }
            _ => b.push(rng.u64() as u8),
        }
    }
}

/// Token soup: plausible headers, sizes and text in random order.
pub fn soup(rng: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..rng.range(1, 12) {
        match rng.below(6) {
            0 | 1 => b.push(rng.below(32) as u8),
            2 => enc_ilint(rng.below(30), &mut b),
            3 => enc_ilint(u64_any(rng), &mut b),
            4 => {
                b.push(17);
                let s = key(rng);
                enc_ilint(s.len() as u64, &mut b);
                b.extend_from_slice(s.as_bytes());
            }
            _ => {
                let n = rng.us(6);
                let e = rng.bytes(n);
                b.extend_from_slice(&e)
            }
        }
    }
    b
}

/// A message with text in it that is not UTF-8: a string, a key or a value, long or short,
/// possibly deep inside.
pub fn bad_text(rng: &mut Rng) -> Vec<u8> {
    let text = |b: &[u8], o: &mut Vec<u8>| {
        o.push(17);
        enc_ilint(b.len() as u64, o);
        o.extend_from_slice(b);
    };
    let max = *rng.pick(&[20usize, 20, 130, 700, 5000]);
    let bad = bad_utf8(rng, max);
    let mut m = Vec::new();
    let mut v = Vec::new();
    let n = rng.below(3);
    let at = rng.below(n + 1);
    let k = rng.below(4);
    if k == 0 {
        text(&bad, &mut m);
    } else {
        enc_ilint(n + 1, &mut v);
        for i in 0..=n {
            let good = if rng.bool() { key(rng) } else { string(rng, max) };
            text(if i == at && k < 3 { &bad } else { good.as_bytes() }, &mut v);
            if k == 1 {
                v.push(0);
            } else {
                let good = string(rng, max);
                text(if i == at && k == 3 { &bad } else { good.as_bytes() }, &mut v);
            }
        }
        m.push(if k == 1 { 30 } else { 31 });
        enc_ilint(v.len() as u64, &mut m);
        m.extend_from_slice(&v);
    }
    for _ in 0..rng.below(3) {
        let mut o = vec![22];
        enc_ilint(m.len() as u64, &mut o);
        o.extend_from_slice(&m);
        m = o;
    }
    m
}

/// Messages of every degree of damage, from none to noise.
pub fn hostile(rng: &mut Rng, c: &Cfg) -> Vec<u8> {
    if rng.one_in(20) {
        return bad_text(rng);
    }
    if rng.one_in(20) {
        return dup_dict(rng, c);
    }
    let n = if rng.one_in(3) { tree(rng, c) } else { small_tree(rng, c, 400) };
    let mut b = bytes_of(&n);
    match rng.below(12) {
        0 => {}
        1 => return soup(rng),
        2 => {
            let k = rng.us(24);
            return rng.bytes(k);
        }
        3 => {
            let k = rng.us(b.len() + 1);
            b.truncate(k);
        }
        7 if rng.one_in(2) => return padded(rng, &n),
        4 | 5 | 6 | 7 => return tweaked(rng, &n),
        8 => {
            b = tweaked(rng, &n);
            let o = bytes_of(&small_tree(rng, c, 100));
            mutate(rng, &mut b, &o);
        }
        _ => {
            let o = bytes_of(&small_tree(rng, c, 100));
            mutate(rng, &mut b, &o);
        }
    }
    b
}

/// A deep chain of containers written from the outside in; sizes consistent, any depth.
pub fn deep_bytes(kinds: &[u8], tail: &[u8]) -> Vec<u8> {
    // sizes from the inside out
    let mut rev: Vec<Vec<u8>> = Vec::new();
    let mut inner = tail.len();
    for k in kinds.iter().rev() {
        let pre: &[u8] = match *k {
            22 => &[],
            21 => &[1],
            30 => &[1, 17, 1, b'k'],
            _ => &[],
        };
        let size = pre.len() + inner;
        let mut h = vec![*k];
        enc_ilint(size as u64, &mut h);
        h.extend_from_slice(pre);
        inner += h.len();
        rev.push(h);
    }
    let mut o = Vec::with_capacity(inner);
    for h in rev.iter().rev() {
        o.extend_from_slice(h);
    }
    o.extend_from_slice(tail);
    o
}

/// Bytes that are not valid UTF-8.
pub fn bad_utf8(rng: &mut Rng, max: usize) -> Vec<u8> {
    let bad: [&[u8]; 18] = [
        &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xc2, 0x41], &[0xe0, 0x80, 0x80],
        &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xe2, 0x82],
        &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x9f, 0x98], &[0xf8, 0x88, 0x80, 0x80, 0x80],
        &[0xfe], &[0xff], &[0xf5, 0x80, 0x80, 0x80],
    ];
    loop {
        let s = string(rng, max).into_bytes();
        let mut at = rng.us(s.len() + 1);
        if rng.one_in(3) {
            at = s.len();
        }
        let mut o = s[..at].to_vec();
        o.extend_from_slice(rng.pick(&bad));
        o.extend_from_slice(&s[at..]);
        if !utf8_ok(&o) {
            return o;
        }
    }
}
