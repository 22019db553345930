//! C09-C11, C30-C32: hostile input, resource bounds, size limit, sanitized mixture, error classes.
use crate::alloc;
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::iomon::*;
use crate::model::*;
use crate::props::{faults, ints, objects, rw, trees};
use crate::rng::{fnv, mix, Rng};
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{ErrorKind as IE, LimitedReader, ReadReader, Reader};
use il2_iltags::tags::raw::*;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::sync::atomic::Ordering::Relaxed;

// ---------------------------------------------------------------- C09

/// Runs f on a thread with the stack a spawned Rust thread has by default.
fn on_small_stack(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R + Send) -> R {
    if c.interp {
        return f(c);
    }
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || f(c)).unwrap().join()
    });
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Everything a program may do with a tag it just received.
fn exercise(c: &mut Ctx, f: &dyn ILTagFactory, t: &dyn ILTag, msg: &[u8]) -> R {
    let _ = (t.id(), t.value_size(), t.is_implicity(), t.is_reserved());
    if t.size() > 4 << 20 {
        // what a failed attempt left: copies of it cost time and show nothing more
        c.n("large leftovers", 1);
        return Ok(());
    }
    let b = t.to_bytes();
    let k = iltag_clone_with_factory(f, t);
    if let (Ok(b), Ok(k)) = (&b, &k) {
        ck!(t.size() == b.len() as u64, "a tag decoded from {} says {} bytes and writes {}", hex(msg), t.size(), b.len());
        // (a target of another type than the factory has for its id is cloned as that type)
        ck!(kind_of(t) != kind_of(k.as_ref()) || iltag_are_equal(t, k.as_ref()), "the clone of a tag decoded from {} differs", hex(msg));
    }
    let _ = iltag_clone(t);
    let _ = iltag_are_equal(t, t);
    let _ = observe(t);
    c.n("decoded tags exercised", 1);
    Ok(())
}

fn scan(c: &mut Ctx, r: &mut dyn Reader, b: &[u8], name: &str) -> R {
    let mut d = Dyn(r);
    let mut s = RawTagScanner::new(&mut d);
    let mut n = 0u64;
    loop {
        match s.next_tag() {
            Ok(Some(_)) => n += 1,
            _ => break,
        }
        ck!(n <= b.len() as u64 + 1, "the scanner found {} tags in the {} bytes {} ({})", n, b.len(), hex(b), name);
    }
    c.n("scans", 1);
    c.n("tags scanned", n);
    Ok(())
}

/// A tag of any type carrying this id.
fn any_target(rng: &mut Rng, reg: &Registry, id: u64) -> Option<Tag> {
    let k = if rng.bool() || id < 16 { reg.kind_of(id)? } else { gen::any_kind(rng) };
    let v = match k {
        Kind::TagArr => Val::TagArr(vec![Node { id: 3, v: Val::U8(1) }]),
        Kind::Seq => Val::Seq(vec![Node { id: 3, v: Val::U8(1) }, Node { id: 0, v: Val::Null }]),
        k => gen::leaf_val(rng, k, 300),
    };
    Some(build(&Node { id, v }, rng))
}

/// Whether some part of it may be taken for an acceptable, large size (too slow to interpret).
fn bulky(b: &[u8]) -> bool {
    (0..b.len()).any(|i| dec_ilint(&b[i..]).map(|x| x.0 > (1 << 15) && x.0 <= MAX_TAG).unwrap_or(false))
}

/// Feeds one byte string to every way in.
fn feed(c: &mut Ctx, rng: &mut Rng, reg: &Registry, f: &ILStandardTagFactory, b: &[u8], routes: usize) -> R {
    if c.interp && (bulky(b) || b.len() > 300) {
        return Ok(());
    }
    c.case(fnv(b));
    for k in 0..routes {
        let r = match k {
            0 => 0,
            1 => 1,
            _ => rng.us(ROUTES),
        };
        match decode_by(f, r, b, rng) {
            Ok(t) => {
                c.n("accepted", 1);
                exercise(c, f, t.as_ref(), b)?;
            }
            Err(_) => c.n("refused", 1),
        }
    }
    if let Ok((id, n)) = dec_ilint(b) {
        let large = id > 15 && dec_ilint(&b[n..]).map(|x| x.0 > (1 << 24) && x.0 <= MAX_TAG).unwrap_or(false);
        let target = if large && !rng.one_in(12) { None } else { any_target(rng, reg, id) };
        if let Some(mut t) = target {
            for _ in 0..2 {
                let k = rng.us(SOURCES);
                let _ = with_source(k, b, rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                c.n("decodes into existing tags", 1);
                exercise(c, f, t.as_ref(), b)?;
                // values of any size, as a payload might ask for
                let top = if c.interp { 1000 } else { 1 << 20 };
                let sz = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 15, 16, 17, b.len(), b.len() + 1, 1000, top]);
                let at = rng.us(b.len() + 1);
                let k = rng.us(SOURCES);
                let _ = with_source(k, &b[at..], rng, &mut |r| t.deserialize_value(f, sz, r));
                c.n("values decoded with any size", 1);
                exercise(c, f, t.as_ref(), b)?;
            }
        }
    }
    let at = rng.us(b.len() + 1);
    for (name, s) in [("from the start", b), ("from inside", &b[at..])] {
        scan(c, &mut ByteArrayReader::new(s), s, name)?;
        let k = rng.us(SOURCES);
        let mut x = Ok(());
        let c2: &mut Ctx = c;
        with_source(k, s, rng, &mut |r| x = scan(c2, r, s, name));
        x?;
        let k = rng.us(SOURCES);
        with_source(k, s, rng, &mut |r| {
            let _ = deserialize_string_tag_from_value(r);
            let _ = r.deserialize_ilint();
            let _ = r.deserialize_signed_ilint();
            let _ = read_string(r, 5);
        });
        let mut l = ByteArrayReader::new(s);
        let lim = *rng.pick(&[0usize, 1, 3, s.len(), s.len() + 1, usize::MAX]);
        let mut l = LimitedReader::new(&mut l, lim);
        let _ = f.deserialize(&mut l);
        let _ = il2_iltags::ilint::decode_from_bytes(s);
        let _ = il2_iltags::ilint::decode_body(s);
    }
    Ok(())
}

const EXTREME: [u64; 22] = [
    0, 1, 247, 248, 0xffff, 0x10000, (1 << 24) - 1, 1 << 24, MAX_TAG - 1, MAX_TAG, MAX_TAG + 1, (1 << 31) - 1, 1 << 31,
    (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 62) + 3, (1 << 63) - 1, 1 << 63, u64::MAX - 15, u64::MAX - 1, u64::MAX,
];

fn extreme(rng: &mut Rng, cheap: bool) -> u64 {
    loop {
        let v = if rng.one_in(4) { gen::u64_any(rng) } else { *rng.pick(&EXTREME) };
        if !cheap || v > MAX_TAG || v < (1 << 23) {
            return v;
        }
    }
}

/// A message whose declared sizes and counts are far from its content.
fn extremes(rng: &mut Rng, reg: &Registry, cheap: bool) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..rng.range(1, 6) {
        let id = if rng.one_in(4) || reg.kinds.is_empty() {
            gen::u64_any(rng)
        } else {
            let v: Vec<u64> = reg.kinds.keys().cloned().collect();
            *rng.pick(&v)
        };
        enc_ilint(id, &mut o);
        if id > 15 {
            enc_ilint(extreme(rng, cheap), &mut o);
        }
        match reg.kind_of(id) {
            Some(Kind::TagArr) | Some(Kind::IntArr) | Some(Kind::Oid) => enc_ilint(extreme(rng, false), &mut o),
            Some(Kind::Dict) | Some(Kind::StrDict) => {
                enc_ilint(extreme(rng, false), &mut o);
                for _ in 0..rng.below(3) {
                    o.push(17);
                    enc_ilint(extreme(rng, cheap), &mut o);
                    let n = rng.us(3);
                    let e = rng.bytes(n);
                    o.extend_from_slice(&e);
                }
            }
            Some(Kind::PRec) => o.extend_from_slice(&[1, 2, 3]),
            _ => {}
        }
    }
    let n = rng.us(30);
    let e = rng.bytes(n);
    o.extend_from_slice(&e);
    o
}

pub fn deep_kinds(rng: &mut Rng, n: usize) -> Vec<u8> {
    let one = match rng.below(6) {
        0 => Some(22u8),
        1 => Some(21),
        2 => Some(30),
        3 => Some(41),
        _ => None,
    };
    (0..n).map(|_| one.unwrap_or_else(|| *rng.pick(&[22, 21, 30, 41]))).collect()
}

pub fn c09(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut reg = gen::registry(&mut rng);
    if reg.kinds.get(&41).is_none() {
        reg.kinds.insert(41, Kind::PNest);
    }
    let f = factory(&reg, &mut rng);
    let kind = c.index % 8;
    on_small_stack(c, move |c| {
        let cfg = Cfg::new(&reg);
        match kind {
            0..=3 => {
                for _ in 0..if c.interp { 1 } else { 6 } {
                    let b = gen::hostile(&mut rng, &cfg);
                    c.sample(|| hex(&b));
                    feed(c, &mut rng, &reg, &f, &b, 4)?;
                    c.n("damaged messages", 1);
                }
            }
            4 => {
                // nesting of every depth, far beyond any stack
                let n = match rng.below(8) {
                    0 => rng.range(200, 260) as usize,
                    1 => rng.range(250, 600) as usize,
                    2 => 1000 + rng.us(9000),
                    3 | 4 => 100_000 - rng.us(300),
                    5 => 20_000,
                    _ => rng.range(2, 300) as usize,
                };
                let n = if c.interp { 2 + n % 40 } else { n };
                let ks = deep_kinds(&mut rng, n);
                let tail: &[u8] = *rng.pick(&[&[0u8][..], &[][..], &[17, 1, b'x'], &[255], &[22, 0], &[1, 7]]);
                let mut b = gen::deep_bytes(&ks, tail);
                if rng.one_in(3) {
                    let k = rng.us(b.len());
                    b.truncate(k);
                }
                c.sample(|| format!("{} levels: {}", n, hex(&b)));
                c.max("deepest message", n as u64);
                feed(c, &mut rng, &reg, &f, &b, 4)?;
                // bare headers, sizes as large as they may be
                let mut o = vec![];
                for k in &ks {
                    o.push(*k);
                    let sz = MAX_TAG - rng.below(3);
                    enc_ilint(sz, &mut o);
                    match *k {
                        21 => enc_ilint(*rng.pick(&[1u64, 2, 1000, MAX_TAG - 9]), &mut o),
                        30 => o.extend_from_slice(&[200, 17, 0]),
                        _ => {}
                    }
                }
                feed(c, &mut rng, &reg, &f, &o, 3)?;
                c.n("deep messages", 2);
            }
            5 => {
                for _ in 0..if c.interp { 1 } else { 6 } {
                    let cheap = !rng.one_in(30);
                    let b = extremes(&mut rng, &reg, cheap);
                    feed(c, &mut rng, &reg, &f, &b, if cheap { 4 } else { 2 })?;
                    c.n("extreme sizes and counts", 1);
                    // the same below a parent that is as large as it may be
                    let mut p = vec![*rng.pick(&[22u8, 22, 41])];
                    enc_ilint(MAX_TAG, &mut p);
                    p.extend_from_slice(&b);
                    feed(c, &mut rng, &reg, &f, &p, 2)?;
                }
            }
            6 => {
                for _ in 0..if c.interp { 2 } else { 20 } {
                    let b = if rng.bool() {
                        let n = rng.us(40);
                        rng.bytes(n)
                    } else {
                        gen::soup(&mut rng)
                    };
                    feed(c, &mut rng, &reg, &f, &b, 3)?;
                    c.n("noise", 1);
                }
            }
            _ => {
                // one target, one message after another
                let n = gen::small_tree(&mut rng, &cfg, 400);
                let mut t = build(&n, &mut rng);
                for _ in 0..if c.interp { 2 } else { 12 } {
                    let mut b = bytes_of(&n);
                    match rng.below(4) {
                        0 => {}
                        1 => {
                            let k = rng.us(b.len() + 1);
                            b.truncate(k)
                        }
                        2 => b = gen::tweaked(&mut rng, &n),
                        _ => gen::mutate(&mut rng, &mut b, &[]),
                    }
                    if c.interp && bulky(&b) {
                        continue;
                    }
                    c.case(fnv(&b));
                    let k = rng.us(SOURCES);
                    let (r, _) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                    c.n(if r.is_ok() { "accepted" } else { "refused" }, 1);
                    c.n("decodes into existing tags", 1);
                    exercise(c, &f, t.as_ref(), &b)?;
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C10

fn held<T>(c: &mut Ctx, n: usize, d: u64, what: &str, msg: &[u8], f: &mut dyn FnMut() -> T) -> std::result::Result<T, String> {
    let m = alloc::mark();
    let r = f();
    let p = alloc::peak_since(m).max(0) as u64;
    if alloc::active() {
        let bound = 256 * n as u64 + d + (256 << 10);
        ck!(
            p <= bound,
            "{}: {} bytes were held while decoding {} bytes that declare a value of {} (bound {}): {}",
            what, p, n, d, bound, hex(msg)
        );
        if d == 0 && n > 5_000 {
            c.max("most bytes held per byte received", p / n as u64);
        }
        c.n("measurements", 1);
    }
    Ok(r)
}

fn declared(rng: &mut Rng) -> u64 {
    match rng.below(16) {
        0 if rng.one_in(8) => MAX_TAG - rng.below(3),
        0 | 1 if rng.one_in(3) => (1 << 26) + rng.below(1000),
        2..=5 => (1 << 22) + rng.below(1 << 20),
        6..=9 => (1 << 18) + rng.below(1 << 20),
        10 => rng.below(100_000),
        _ => 1 << rng.range(12, 24),
    }
}

/// Nested headers that promise much and hold little. Gives the bytes and the largest size of a
/// value declared.
fn bomb(rng: &mut Rng) -> (Vec<u8>, u64) {
    let levels = match rng.below(4) {
        0 => 0,
        1 => rng.range(1, 4),
        2 => rng.range(4, 40),
        _ => rng.range(40, 250),
    };
    let s = declared(rng);
    let mut left = s;
    let mut o = vec![];
    let mut d = 0;
    let counts = |rng: &mut Rng, left: u64| match rng.below(5) {
        0 => left,
        1 => left / 2,
        2 => left.saturating_sub(rng.below(12)),
        3 => u64::MAX - rng.below(5),
        _ => left + rng.below(5),
    };
    for _ in 0..levels {
        let sz = if rng.bool() { left } else { left.saturating_sub(16) };
        left = sz;
        d = d.max(sz);
        let k = *rng.pick(&[22u8, 21, 21, 21, 30, 30, 41]);
        o.push(k);
        enc_ilint(sz, &mut o);
        match k {
            21 => {
                let n = if rng.one_in(4) { 1 } else { counts(rng, sz.saturating_sub(9)) };
                enc_ilint(n.min(sz), &mut o)
            }
            30 => {
                enc_ilint(counts(rng, sz), &mut o);
                o.extend_from_slice(&[17, 1, b'k']);
            }
            _ => {}
        }
    }
    let sz = if rng.bool() { left } else { left.saturating_sub(40) };
    let k = *rng.pick(&[16u8, 17, 18, 19, 20, 20, 25, 25, 31, 31, 30, 21, 40, 42, 100]);
    match k {
        31 | 30 => {
            d = d.max(sz);
            o.push(k);
            enc_ilint(sz, &mut o);
            enc_ilint(counts(rng, sz), &mut o);
            let key = if rng.bool() { sz } else { rng.below(4) };
            o.push(17);
            enc_ilint(key, &mut o);
            d = d.max(key);
            if key < 4 {
                o.extend_from_slice(&b"kkk"[..key as usize]);
                o.push(if k == 31 { 17 } else { 16 });
                enc_ilint(sz, &mut o);
            }
        }
        20 | 25 | 21 => {
            o.push(k);
            enc_ilint(sz, &mut o);
            d = d.max(sz);
            let n = counts(rng, sz);
            enc_ilint(n, &mut o);
        }
        42 => {
            d = d.max(sz);
            o.push(42);
            enc_ilint(sz, &mut o);
            o.extend_from_slice(&[1, 2, 9]);
        }
        k => {
            d = d.max(sz);
            enc_ilint(k as u64, &mut o);
            enc_ilint(sz, &mut o);
        }
    }
    let n = rng.us(200);
    match rng.below(3) {
        0 => o.resize(o.len() + n, 0),
        1 => {
            // nothing that could declare a large size of its own
            for _ in 0..n {
                o.push(rng.below(248) as u8)
            }
        }
        _ => {
            for _ in 0..n {
                o.push(*rng.pick(&[0u8, 3, 17, 16, 1]))
            }
        }
    }
    (o, d)
}

/// The largest number that any place of b could be read as declaring.
fn declares(b: &[u8]) -> u64 {
    (0..b.len()).filter_map(|i| dec_ilint(&b[i..]).ok()).map(|x| x.0).filter(|x| *x <= MAX_TAG).max().unwrap_or(0)
}

pub fn c10(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut reg = gen::registry(&mut rng);
    for (i, k) in [(40, Kind::PBlob), (41, Kind::PNest), (42, Kind::PRec)] {
        reg.kinds.insert(i, k);
    }
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    // per-thread state is set up before anything is measured
    let _ = f.from_bytes(&[22, 1, 0]);
    match c.index % 4 {
        0 | 1 => {
            for _ in 0..6 {
                let (b, d) = bomb(&mut rng);
                c.case(fnv(&b));
                c.sample(|| format!("up to {} declared by {}", d, hex(&b)));
                for k in [rng.us(ROUTES), rng.us(ROUTES)] {
                    let mut x = rng.fork();
                    let r = held(c, b.len(), d, &route_name(k), &b, &mut || decode_by(&f, k, &b, &mut x).is_ok())?;
                    c.n(if r { "bombs accepted" } else { "bombs refused" }, 1);
                    c.max("largest size declared", d);
                }
                // into a tag that has held something
                if let Ok((id, _)) = dec_ilint(&b) {
                    let m = alloc::mark();
                    if let Some(mut t) = any_target(&mut rng, &reg, id) {
                        let old = (alloc::live() - m).max(0) as u64;
                        let k = rng.us(SOURCES);
                        let mut x = rng.fork();
                        held(c, b.len(), d + 3 * old, "deserialize_into", &b, &mut || {
                            let _ = with_source(k, &b, &mut x, &mut |r| f.deserialize_into(r, t.as_mut()));
                        })?;
                        c.n("bombs into existing tags", 1);
                    }
                }
                held(c, 64, 0, "scan", &b, &mut || {
                    let mut r = ByteArrayReader::new(&b);
                    let mut s = RawTagScanner::new(&mut r);
                    while let Ok(Some(_)) = s.next_tag() {}
                })?;
            }
        }
        2 => {
            for _ in 0..10 {
                let mut b = gen::hostile(&mut rng, &cfg);
                if rng.one_in(4) {
                    b = extremes(&mut rng, &reg, false);
                }
                let d = declares(&b);
                c.case(fnv(&b));
                for k in [0, rng.us(ROUTES)] {
                    let mut x = rng.fork();
                    held(c, b.len(), d, &route_name(k), &b, &mut || decode_by(&f, k, &b, &mut x).is_ok())?;
                    c.n("damaged messages", 1);
                }
            }
        }
        _ => {
            // honest messages with as much structure per byte as possible
            let n = 2000 + rng.us(30_000);
            let mut v = vec![];
            let id = match rng.below(6) {
                0 => {
                    v.resize(n, 0);
                    22u8
                }
                1 => {
                    enc_ilint(n as u64, &mut v);
                    v.resize(v.len() + n, 0);
                    21
                }
                2 => {
                    enc_ilint(n as u64, &mut v);
                    v.resize(v.len() + n, 7);
                    *rng.pick(&[20u8, 25])
                }
                3 => {
                    let m = n / 6;
                    enc_ilint(m as u64, &mut v);
                    for i in 0..m {
                        enc_str_tag(format!("{:x}", i).as_bytes(), &mut v);
                        v.push(0);
                    }
                    30
                }
                4 => {
                    let m = n / 6;
                    enc_ilint(m as u64, &mut v);
                    for i in 0..m {
                        enc_str_tag(format!("{:x}", i).as_bytes(), &mut v);
                        v.extend_from_slice(&[17, 0]);
                    }
                    31
                }
                _ => {
                    for _ in 0..n / 2 {
                        v.extend_from_slice(*rng.pick(&[&[22u8, 0][..], &[16, 0], &[17, 0], &[21, 1, 0], &[30, 1, 0]]));
                    }
                    22
                }
            };
            let mut b = vec![id];
            enc_ilint(v.len() as u64, &mut b);
            b.extend_from_slice(&v);
            if rng.one_in(3) {
                b.pop();
            }
            c.case(fnv(&b));
            for k in [0, rng.us(ROUTES)] {
                let mut x = rng.fork();
                let r = held(c, b.len(), 0, &route_name(k), &b, &mut || decode_by(&f, k, &b, &mut x).is_ok())?;
                c.n(if r { "dense messages accepted" } else { "dense messages refused" }, 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn calls() -> u64 {
    SIZE_CALLS.load(Relaxed) + SER_CALLS.load(Relaxed) + DES_CALLS.load(Relaxed)
}

/// Payload calls made by f must stay within the budget (they panic beyond it).
fn priced<T>(c: &mut Ctx, budget: u64, what: &str, f: &mut dyn FnMut() -> T) -> std::result::Result<T, String> {
    SIZE_CALLS.store(0, Relaxed);
    SER_CALLS.store(0, Relaxed);
    DES_CALLS.store(0, Relaxed);
    WORK_BUDGET.store(budget, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    WORK_BUDGET.store(u64::MAX, Relaxed);
    let n = calls();
    c.max("most payload calls in one operation", n);
    c.n("operations priced", 1);
    match r {
        Ok(x) => Ok(x),
        Err(_) => Err(format!("{} took more than {} calls into one payload", what, budget)),
    }
}

pub fn c11(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut reg = gen::registry(&mut rng);
    for (i, k) in [(40, Kind::PBlob), (41, Kind::PNest), (300, Kind::Seq), (301, Kind::TagArr), (302, Kind::Dict)] {
        reg.kinds.insert(i, k);
    }
    let f = factory(&reg, &mut rng);
    if c.index % 8 == 7 {
        return c11_wide(c, &mut rng, &f);
    }
    let depth = *rng.pick(&[40usize, 48, 64, 90, 120, 160, 200, gen::DEEP]);
    let ids = [(22u64, Kind::Seq), (21, Kind::TagArr), (30, Kind::Dict), (41, Kind::PNest), (300, Kind::Seq), (301, Kind::TagArr), (302, Kind::Dict)];
    let one = if c.index % 8 < 7 && rng.one_in(4) { None } else { Some(ids[(c.index % 7) as usize]) };
    let n = rng.us(20);
    let mut node = Node { id: 40, v: Val::PBlob(rng.bytes(n)) };
    let sib = rng.below(3);
    for _ in 1..depth {
        let (id, k) = one.unwrap_or_else(|| *rng.pick(&ids));
        let s = Node { id: 3, v: Val::U8(9) };
        let v = match k {
            Kind::Seq => Val::Seq(if sib == 1 { vec![s, node] } else { vec![node] }),
            Kind::TagArr => Val::TagArr(if sib == 2 { vec![node, s] } else { vec![node] }),
            Kind::Dict => {
                let mut m = std::collections::BTreeMap::new();
                m.insert(b"k".to_vec(), node);
                if sib == 1 {
                    m.insert(b"a".to_vec(), s);
                }
                Val::Dict(m)
            }
            _ => Val::PNest(Box::new(node)),
        };
        node = Node { id, v };
    }
    let what = match one {
        Some((id, k)) => format!("{} levels of {:?} ({})", depth, k, id),
        None => format!("{} mixed levels", depth),
    };
    let want = bytes_of(&node);
    c.case(fnv(&want));
    c.sample(|| format!("{}: {}", what, hex(&want)));
    c.max("deepest", depth as u64);
    let t = build(&node, &mut rng);
    let count = node.count();
    let budget = 4 * count * (depth as u64) * (depth as u64) + 1000;
    let s = priced(c, budget, &format!("size() of {}", what), &mut || t.size())?;
    ck!(s == want.len() as u64, "size() of {} is {}", what, s);
    priced(c, budget, &format!("value_size() of {}", what), &mut || t.value_size())?;
    let b = priced(c, budget, &format!("to_bytes() of {}", what), &mut || t.to_bytes())?;
    ck!(b.ok().as_deref() == Some(&want[..]), "to_bytes() of {} is wrong", what);
    priced(c, budget, &format!("serialize() of {}", what), &mut || t.serialize(&mut VecWriter::new()).is_ok())?;
    let e = priced(c, 2 * budget, &format!("comparing {}", what), &mut || iltag_are_equal(t.as_ref(), t.as_ref()))?;
    ck!(e, "{} differs from itself", what);
    let k = priced(c, 2 * budget, &format!("cloning {}", what), &mut || iltag_clone_with_factory(&f, t.as_ref()))?;
    let k = k.map_err(|e| format!("cloning {} fails: {:?}", what, e))?;
    priced(c, 2 * budget, &format!("comparing {} to its clone", what), &mut || iltag_are_equal(t.as_ref(), k.as_ref()))?;
    // each byte is asked for once, whether the message is whole or damaged
    for damage in 0..4 {
        let mut m = want.clone();
        match damage {
            0 => {}
            1 => {
                let k = rng.us(m.len());
                m.truncate(k)
            }
            2 => {
                let i = m.len() - 1 - rng.us(m.len().min(30));
                m[i] ^= 0x15
            }
            _ => gen::mutate(&mut rng, &mut m, &want),
        }
        let mut r = BulkReader::new(&m);
        let x = priced(c, budget, &format!("decoding {}", what), &mut || f.deserialize(&mut r).is_ok())?;
        ck!(r.delivered <= m.len() as u64, "decoding {} took {} bytes from a source of {}", what, r.delivered, m.len());
        ck!(damage != 0 || x, "{} is refused", what);
        let asked = r.calls;
        ck!(asked <= 4 * m.len() + 16, "decoding {} made {} requests for {} bytes", what, asked, m.len());
        let lim = rng.us(50);
        let mut s = Frag::new(&m, lim, 0, rng.fork());
        priced(c, budget, &format!("decoding {}", what), &mut || f.deserialize(&mut ReadReader::new(&mut s)).is_ok())?;
        ck!(s.delivered <= m.len() as u64, "decoding {} took {} bytes from a stream of {}", what, s.delivered, m.len());
        let mut t2 = build(&node, &mut rng);
        let mut r = BulkReader::new(&m);
        priced(c, budget, &format!("decoding {} into a tag", what), &mut || f.deserialize_into(&mut r, t2.as_mut()).is_ok())?;
        ck!(r.delivered <= m.len() as u64, "decoding {} into a tag took {} bytes from a source of {}", what, r.delivered, m.len());
        c.n("decodes priced", 3);
    }
    Ok(())
}

fn c11_wide(c: &mut Ctx, rng: &mut Rng, f: &ILStandardTagFactory) -> R {
    let n = rng.range(5_000, 30_000) as usize;
    let id = *rng.pick(&[22u64, 21, 30, 300, 301, 302]);
    let leaf = |i: usize| Node { id: 40, v: Val::PBlob(vec![i as u8; i % 3]) };
    let v = match id {
        22 | 300 => Val::Seq((0..n).map(leaf).collect()),
        21 | 301 => Val::TagArr((0..n).map(leaf).collect()),
        _ => Val::Dict((0..n).map(|i| (format!("{}", i * 7919 % n).into_bytes(), leaf(i))).collect()),
    };
    let node = Node { id, v };
    let want = bytes_of(&node);
    c.case(fnv(&want));
    let t = build(&node, rng);
    let budget = 64 * n as u64 + 1000;
    let what = format!("a tag {} of {} elements", id, n);
    let t0 = priced(c, budget, &format!("size() of {}", what), &mut || t.size())?;
    ck!(t0 == want.len() as u64, "size() of {} is {}", what, t0);
    let b = priced(c, budget, &format!("to_bytes() of {}", what), &mut || t.to_bytes())?;
    ck!(b.ok().as_deref() == Some(&want[..]), "to_bytes() of {} is wrong", what);
    priced(c, 2 * budget, &format!("cloning {}", what), &mut || iltag_clone_with_factory(f, t.as_ref()).is_ok())?;
    let mut r = BulkReader::new(&want);
    let x = priced(c, budget, &format!("decoding {}", what), &mut || f.deserialize(&mut r).is_ok())?;
    ck!(x, "{} is refused", what);
    ck!(r.delivered <= want.len() as u64, "decoding {} took {} bytes from a source of {}", what, r.delivered, want.len());
    c.max("widest", n as u64);
    c.n("wide tags", 1);
    Ok(())
}

// ---------------------------------------------------------------- C30

fn too_large(rng: &mut Rng) -> u64 {
    loop {
        let v = match rng.below(12) {
            0 | 1 => MAX_TAG + 1,
            2 => MAX_TAG + rng.below(300),
            3 => (1 << 30) + rng.below(9),
            4 => (1u64 << 31).wrapping_sub(2) + rng.below(5),
            5 => (1u64 << 32) - 3 + rng.below(6),
            6 => (1u64 << 32) + rng.below(1 << 29),
            7 => (rng.below(1 << 31) << 32) | rng.below(600),
            8 => u64::MAX - rng.below(300),
            9 => (1u64 << 63).wrapping_add(rng.below(400)).wrapping_sub(200),
            10 => 1 << rng.range(30, 63),
            _ => gen::u64_any(rng),
        };
        if v > MAX_TAG {
            return v;
        }
    }
}

fn is_too_large(e: &TErr) -> bool {
    matches!(e, TErr::TagTooLarge)
}

pub fn c30(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut reg = gen::registry(&mut rng);
    for (i, k) in [(40, Kind::PBlob), (41, Kind::PNest), (1000, Kind::PBlob), (300, Kind::Seq), (301, Kind::TagArr), (302, Kind::Dict)] {
        reg.kinds.insert(i, k);
    }
    let f = factory(&reg, &mut rng);
    let ids: Vec<u64> = reg.kinds.keys().cloned().filter(|i| *i > 15).collect();
    // the conversion itself
    for _ in 0..40 {
        let v = match rng.below(4) {
            0 => too_large(&mut rng),
            1 => MAX_TAG.wrapping_add(rng.below(5)).wrapping_sub(2),
            2 => rng.below(MAX_TAG + 1),
            _ => gen::u64_any(&mut rng),
        };
        match tag_size_to_usize(v) {
            Ok(x) => ck!(v <= MAX_TAG && x as u64 == v, "a size of {} is converted to {}", v, x),
            Err(e) => ck!(v > MAX_TAG && is_too_large(&e), "a size of {} is refused with {:?}", v, e),
        }
        c.n("sizes converted", 1);
    }
    for _ in 0..8 {
        let size = too_large(&mut rng);
        let id = *rng.pick(&ids);
        let mut head = ilint(id);
        enc_ilint(size, &mut head);
        // wrap it
        let depth = if rng.bool() { 0 } else { rng.range(1, 12) };
        let mut place = String::from("top");
        for d in 0..depth {
            let w = *rng.pick(&[22u64, 21, 30, 41, 300, 301, 302, 31]);
            let mut v = vec![];
            match w {
                21 | 301 => enc_ilint(1 + rng.below(3), &mut v),
                30 | 302 => {
                    enc_ilint(1 + rng.below(3), &mut v);
                    if d == 0 && rng.bool() {
                        // the key is what is too large
                        head = vec![17];
                        enc_ilint(size, &mut head);
                        place = "dictionary key".into();
                    } else {
                        enc_str_tag(gen::key(&mut rng).as_bytes(), &mut v);
                    }
                }
                31 => {
                    if d > 0 {
                        continue;
                    }
                    enc_ilint(1 + rng.below(3), &mut v);
                    if rng.bool() {
                        enc_str_tag(b"key", &mut v);
                        place = "string dictionary value".into();
                    } else {
                        place = "string dictionary key".into();
                    }
                    head = vec![17];
                    enc_ilint(size, &mut head);
                }
                _ => {}
            }
            v.extend_from_slice(&head);
            let mut m = ilint(w);
            // the enclosing tag is as large as it may be
            let sz = if rng.bool() { MAX_TAG } else { MAX_TAG - rng.below(1000) };
            enc_ilint(sz, &mut m);
            m.extend_from_slice(&v);
            head = m;
        }
        c.case(fnv(&head));
        c.sample(|| format!("{} bytes declared at {} (depth {}): {}", size, place, depth, hex(&head)));
        let _ = f.from_bytes(&[22, 1, 0]);
        // plenty of data behind it
        for mode in 0..5 {
            GIVEN.with(|g| g.set(None));
            let into = mode == 1;
            let mut t = None;
            if into {
                let (id, _) = dec_ilint(&head).unwrap();
                match any_target(&mut rng, &reg, id) {
                    // the target must lead to the same place
                    Some(x) if reg.kind_of(id) == kind_of(x.as_ref()) => t = Some(x),
                    _ => continue,
                }
            }
            let m = alloc::mark();
            let (r, pos) = match mode {
                0 | 1 => {
                    let mut s = Endless { head: &head, pos: 0, total: u64::MAX, fill: 0 };
                    let r = match t.as_mut() {
                        Some(t) => f.deserialize_into(&mut s, t.as_mut()).map(|_| ()),
                        None => f.deserialize(&mut s).map(|_| ()),
                    };
                    (r, Some(s.pos))
                }
                2 => {
                    // nothing behind it
                    let k = rng.us(SOURCES);
                    let (r, p) = decode_on(&f, k, &head, &mut rng);
                    (r.map(|_| ()), p.map(|p| p as u64))
                }
                3 => (f.from_bytes(&head).map(|_| ()), None),
                _ => {
                    let mut s = Sparse { len: u64::MAX, pieces: vec![(0, head.clone())], pos: 0 };
                    let r = f.deserialize(&mut s).map(|_| ());
                    (r, Some(s.pos))
                }
            };
            let peak = alloc::peak_since(m);
            match r {
                Ok(()) => return Err(format!("a size of {} at {} (depth {}) is accepted: {}", size, place, depth, hex(&head))),
                Err(e) => ck!(is_too_large(&e), "a size of {} at {} (depth {}) is refused with {:?}: {}", size, place, depth, e, hex(&head)),
            }
            if let Some(p) = pos {
                ck!(p == head.len() as u64, "{} bytes were read of a tag refused after its {} header bytes: {}", p, head.len(), hex(&head));
                c.n("refused at the header", 1);
            }
            if alloc::active() {
                ck!(peak < (256 << 10) + 300 * head.len() as i64, "{} bytes were held for a tag refused by its size: {}", peak, hex(&head));
            }
            if id == 40 && depth == 0 {
                ck!(GIVEN.with(|g| g.get()).is_none(), "a payload was given a value of {:?} bytes", GIVEN.with(|g| g.get()));
            }
            c.n("refusals", 1);
        }
        // the helper behind dictionaries
        let mut h = vec![17];
        enc_ilint(size, &mut h);
        let mut s = Endless { head: &h, pos: 0, total: u64::MAX, fill: b'a' };
        match deserialize_string_tag_from_value(&mut s) {
            Err(e) if is_too_large(&e) => {}
            x => return Err(format!("a string tag of {} bytes: {:?}", size, x.map(|s| s.len()))),
        }
        ck!(s.pos == h.len() as u64, "{} bytes were read of a string tag refused after its {} header bytes", s.pos, h.len());
    }
    // the limit itself, and sizes below
    let exact = c.index % 100 == 17;
    let size = if exact { MAX_TAG - (c.index / 100) % 2 } else { rng.below(1 << 20) };
    for id in [16u64, 40] {
        let mut head = ilint(id);
        enc_ilint(size, &mut head);
        let parent = rng.bool();
        let mut all = vec![];
        if parent && exact {
            // a parent of exactly the limit with the largest child that fits
            let child = MAX_TAG - 6;
            head = ilint(id);
            enc_ilint(child, &mut head);
            ck!(head.len() == 6, "the header of the child has {} bytes", head.len());
            all = vec![22];
            enc_ilint(MAX_TAG, &mut all);
        }
        all.extend_from_slice(&head);
        let want = if parent && exact { MAX_TAG - 6 } else { size };
        let mut s = Endless { head: &all, pos: 0, total: u64::MAX, fill: 0 };
        let t = f.deserialize(&mut s).map_err(|e| format!("a value of {} bytes is refused with {:?}", want, e))?;
        ck!(s.pos == all.len() as u64 + want, "a value of {} bytes took {} from the source", want, s.pos);
        let t: &dyn ILTag = match t.as_any().downcast_ref::<ILTagSeqTag>() {
            Some(s) => s.value()[0].as_ref(),
            None => t.as_ref(),
        };
        ck!(t.value_size() == want, "a value of {} bytes is decoded as {} bytes", want, t.value_size());
        c.n(if exact { "largest values accepted" } else { "values accepted" }, 1);
    }
    // as a string
    if c.index % 100 == 57 {
        let mut head = vec![17];
        enc_ilint(MAX_TAG, &mut head);
        let mut s = Endless { head: &head, pos: 0, total: u64::MAX, fill: b'a' };
        let t = f.deserialize(&mut s).map_err(|e| format!("a string of 512 MiB is refused with {:?}", e))?;
        ck!(t.value_size() == MAX_TAG, "a string of 512 MiB is decoded as {} bytes", t.value_size());
        c.n("largest values accepted", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C31

pub fn c31(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    type Part = (&'static str, fn(&mut Ctx) -> R, u64);
    const PARTS: [Part; 28] = [
        ("C01", ints::c01, 0), ("C02", ints::c02, 0), ("C03", ints::c03, 0), ("C04", ints::c04, 0),
        ("C05", trees::c05, 0), ("C06", trees::c06, 0), ("C07", trees::c07, 0), ("C08", trees::c08, 300),
        ("C09", c09, 0), ("C12", trees::c12, 0), ("C13", trees::c13, 0), ("C14", rw::c14, 0),
        ("C15", objects::c15, 0), ("C16", objects::c16, 0), ("C17", objects::c17, 0), ("C18", objects::c18, 0),
        ("C19", rw::c19, 0), ("C20", rw::c20, 0), ("C21", rw::c21, 0), ("C22", faults::c22, 0), ("C23", faults::c23, 0),
        ("C24", rw::c24, 0), ("C25", rw::c25, 0), ("C26", objects::c26, 0), ("C27", objects::c27, 0),
        ("C28", objects::c28, 0), ("C29", objects::c29, 0), ("C32", c32, 0),
    ];
    // what the decoder hands out must come from the input, whatever fresh memory holds
    let mut reg = gen::registry(&mut rng);
    reg.kinds.insert(41, Kind::PNest);
    let f = factory(&reg, &mut rng);
    {
        let cfg = Cfg::new(&reg);
        for _ in 0..if c.interp { 1 } else { 4 } {
            let b = gen::hostile(&mut rng, &cfg);
            if c.interp && bulky(&b) {
                continue;
            }
            c.case(fnv(&b));
            let k = rng.us(ROUTES);
            let seed = rng.u64();
            let mut seen: Vec<(u8, std::result::Result<(Node, Vec<u8>), String>)> = vec![];
            for p in [0xA5u8, 0x00, 0x5A] {
                alloc::poison(p);
                let r = decode_by(&f, k, &b, &mut Rng::new(seed));
                let r = match r {
                    Ok(t) => Ok((observe(t.as_ref()), t.to_bytes().map_err(|e| format!("{:?}", e))?)),
                    Err(e) => Err(format!("{:?}", e)),
                };
                seen.push((p, r));
                if !alloc::active() {
                    break;
                }
            }
            alloc::poison(0xA5);
            for s in seen.iter().skip(1) {
                ck!(s.1 == seen[0].1, "{} of {} depends on what memory held before: {:?} and {:?}", route_name(k), hex(&b), seen[0].1, s.1);
                c.n("decodes repeated over other memory", 1);
            }
            c.n(if seen[0].1.is_ok() { "accepted" } else { "refused" }, 1);
        }
    }
    // the same for what is decoded into tags and buffers that exist, also when it fails half way:
    // what they hold afterwards is made of the input and of what they held
    {
        let cfg = Cfg::new(&reg);
        for _ in 0..if c.interp { 2 } else { 5 } {
            let target = if rng.bool() { gen::leaf(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 150) };
            let mut m = target.clone();
            for _ in 0..8 {
                let x = if rng.bool() { gen::leaf(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 150) };
                if x.id == target.id {
                    m = x;
                    break;
                }
            }
            let mut b = bytes_of(&m);
            match rng.below(4) {
                0 | 1 => {
                    let k = rng.us(b.len() + 1);
                    b.truncate(k);
                }
                2 => b = gen::tweaked(&mut rng, &m),
                _ => gen::mutate(&mut rng, &mut b, &[]),
            }
            if bulky(&b) || b.len() > 20_000 {
                continue;
            }
            c.case(fnv(&b) ^ mix(target.id));
            let k = rng.us(SOURCES);
            let seed = rng.u64();
            let mut seen: Vec<(bool, std::result::Result<Vec<u8>, String>, Node)> = vec![];
            for p in [0xA5u8, 0x00, 0x5A] {
                alloc::poison(p);
                let mut r2 = Rng::new(seed);
                let mut t = build(&target, &mut r2);
                let (ok, _) = with_source(k, &b, &mut r2, &mut |r| f.deserialize_into(r, t.as_mut()).is_ok());
                // looking at every byte the tag holds is what shows memory nobody wrote
                seen.push((ok, t.to_bytes().map_err(|e| format!("{:?}", e)), observe(t.as_ref())));
                if !alloc::active() {
                    std::hint::black_box(fnv(format!("{:?}", seen[0]).as_bytes()));
                    break;
                }
            }
            alloc::poison(0xA5);
            for s in seen.iter().skip(1) {
                ck!(*s == seen[0], "{} decoded into {} from {} leaves a value that depends on what memory held before: {} and {}", hex(&b), target.brief(), source_name(k), seen[0].2.brief(), s.2.brief());
                c.n("decodes into a tag repeated over other memory", 1);
            }
            c.n(if seen[0].0 { "accepted into a tag" } else { "refused into a tag" }, 1);
        }
        for _ in 0..if c.interp { 1 } else { 4 } {
            let have = gen::len(&mut rng, 300);
            let src = rng.bytes(have);
            let want = if rng.bool() { rng.us(have + 1) } else { gen::len(&mut rng, 600) };
            let was = rng.us(40);
            let room = rng.us(200);
            let k = rng.us(SOURCES);
            let seed = rng.u64();
            let mut seen: Vec<(bool, Vec<u8>, usize)> = vec![];
            for p in [0xA5u8, 0x00, 0x5A] {
                alloc::poison(p);
                let mut r2 = Rng::new(seed);
                let mut v = Vec::with_capacity(room.max(was));
                v.resize(was, 0x11u8);
                let (x, _) = with_source(k, &src, &mut r2, &mut |r| {
                    let ok = r.deserialize_bytes_into_vec(want, &mut v).is_ok();
                    let rest = r.deserialize_bytes(3).map(|b| fnv(&b) as usize).unwrap_or(0);
                    (ok, rest)
                });
                let sum = fnv(&v) as usize;
                seen.push((x.0, v, sum ^ x.1));
                if !alloc::active() {
                    break;
                }
            }
            alloc::poison(0xA5);
            ck!(!seen[0].0 || (want <= have && seen[0].1 == src[..want]), "{} bytes read into a vector from {} of {} are {}", want, source_name(k), have, hex(&seen[0].1));
            for s in seen.iter().skip(1) {
                ck!(*s == seen[0], "reading {} of {} bytes from {} into a vector depends on what memory held before", want, have, source_name(k));
            }
            c.n("reads into a vector", 1);
        }
    }
    drop(f);
    // any operation of the library leaves no memory behind
    let pick = if c.interp { c.index % PARTS.len() as u64 } else { rng.below(PARTS.len() as u64) };
    let (name, part, base) = PARTS[pick as usize];
    let seed = rng.u64();
    let index = base + 1 + rng.below(1 << 20);
    let panicked = std::cell::Cell::new(false);
    let once = |c: &mut Ctx| -> std::result::Result<(i64, i64), String> {
        let before = (alloc::live(), alloc::blocks());
        let mut x = Ctx::new(seed, false);
        x.begin(mix(pick), index);
        // what the other monitor concludes is its own affair: this one watches memory
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| part(&mut x)));
        let n: u64 = x.evals;
        drop(x);
        match &r {
            Ok(Ok(())) => {}
            Ok(Err(_)) => c.n("objections of the other monitor", 1),
            Err(_) => {
                c.n("parts that panicked", 1);
                panicked.set(true);
            }
        }
        drop(r);
        let after = (alloc::live(), alloc::blocks());
        c.n("operations of other monitors", n);
        c.n(&format!("part {}", name), 1);
        Ok((after.0 - before.0, after.1 - before.1))
    };
    c.sample(|| format!("{} with seed {} case {}", name, seed, index));
    c.case(mix(seed));
    once(c)?;
    if alloc::active() && !panicked.get() {
        // the first run may set up caches; what grows on every run is lost
        let a = once(c)?;
        if a != (0, 0) {
            let b = once(c)?;
            let d = once(c)?;
            ck!(
                b.1 <= 0 || d.1 <= 0,
                "{}: every run leaves {} bytes in {} blocks behind", name, d.0, d.1
            );
        }
        c.n("leak checks", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Unknown,
    TooLarge,
    Corrupted,
    /// malformed text or numbers: corrupted data, told by the reader
    CorruptedIo,
    /// goes past the end of the tag that holds it
    Overrun,
    Unexpected,
    /// source ended
    Ended,
}

fn class_ok(k: Class, e: &TErr) -> bool {
    let ended = |e: &IE| match e {
        IE::EndOfData | IE::UnableToReadData => true,
        IE::IOError(x) => x.kind() == std::io::ErrorKind::UnexpectedEof,
        _ => false,
    };
    match k {
        Class::Unknown => matches!(e, TErr::UnknownTag),
        Class::TooLarge => matches!(e, TErr::TagTooLarge),
        Class::Unexpected => matches!(e, TErr::UnexpectedTagType),
        Class::Corrupted => matches!(e, TErr::CorruptedData),
        Class::CorruptedIo => matches!(e, TErr::CorruptedData | TErr::IOError(IE::CorruptedData)),
        Class::Overrun => match e {
            TErr::CorruptedData | TErr::IOError(IE::CorruptedData) => true,
            TErr::IOError(x) => ended(x),
            _ => false,
        },
        Class::Ended => match e {
            TErr::IOError(x) => ended(x),
            _ => false,
        },
    }
}

/// A message with exactly one defect.
fn defect(rng: &mut Rng, reg: &Registry) -> Option<(Vec<u8>, Class, String)> {
    let tag = |id: u64, v: &[u8]| {
        let mut o = ilint(id);
        if id > 15 {
            enc_ilint(v.len() as u64, &mut o);
        }
        o.extend_from_slice(v);
        o
    };
    let cfg = Cfg::new(reg);
    Some(match rng.below(22) {
        0 | 1 => {
            // an id nobody registered
            if reg.strict {
                let id = loop {
                    let i = if rng.one_in(3) { *rng.pick(&[26u64, 27, 28, 29]) } else { gen::custom_id(rng) };
                    if reg.kinds.get(&i).is_none() {
                        break i;
                    }
                };
                let n = rng.us(20);
                let v = rng.bytes(n);
                (tag(id, &v), Class::Unknown, format!("unknown id {}", id))
            } else {
                let gone: Vec<u64> = (0..14).filter(|i| *i != 10 && reg.kinds.get(i).is_none()).collect();
                if gone.is_empty() {
                    return None;
                }
                let id = *rng.pick(&gone);
                let v = rng.bytes(implicit_size(id).unwrap());
                (tag(id, &v), Class::Unknown, format!("deregistered id {}", id))
            }
        }
        2 | 3 => {
            let ids: Vec<u64> = reg.kinds.keys().cloned().filter(|i| *i > 15).collect();
            let id = *rng.pick(&ids);
            let mut o = ilint(id);
            let s = too_large(rng);
            enc_ilint(s, &mut o);
            let n = rng.us(5);
            let e = rng.bytes(n);
            o.extend_from_slice(&e);
            (o, Class::TooLarge, format!("size {} of tag {}", s, id))
        }
        4 => {
            if reg.kinds.get(&1) != Some(&Kind::Bool) {
                return None;
            }
            let v = 2 + rng.below(254) as u8;
            (vec![1, v], Class::Corrupted, format!("boolean {}", v))
        }
        5 => (tag(17, &gen::bad_utf8(rng, 40)), Class::CorruptedIo, "text that is not UTF-8".into()),
        6 | 7 => {
            // a fixed size value with bytes left over
            let (id, n) = *rng.pick(&[(24u64, 16usize), (310, 0), (311, 1), (312, 2), (313, 4), (314, 8), (315, 16)]);
            let extra = 1 + rng.us(4);
            let mut v = vec![0; n];
            v.extend(rng.bytes(extra));
            (tag(id, &v), Class::Corrupted, format!("{} bytes left over in tag {}", extra, id))
        }
        8 => {
            let (id, n) = *rng.pick(&[(24u64, 16usize), (311, 1), (312, 2), (313, 4), (314, 8), (315, 16), (19, 4)]);
            let v = vec![0; n - 1 - rng.us(n)];
            (tag(id, &v), Class::Overrun, format!("a value of {} bytes in tag {}", v.len(), id))
        }
        9 => {
            // array with elements left over
            let id = *rng.pick(&[20u64, 25]);
            let k = rng.below(5);
            let mut v = vec![];
            enc_ilint(k, &mut v);
            for _ in 0..k + 1 + rng.below(3) {
                enc_ilint(gen::u64_any(rng), &mut v);
            }
            (tag(id, &v), Class::Corrupted, "more elements than declared".into())
        }
        10 => {
            let id = *rng.pick(&[20u64, 25]);
            let k = rng.range(1, 5);
            let mut v = vec![];
            enc_ilint(k, &mut v);
            for _ in 0..k - 1 {
                enc_ilint(gen::u64_any(rng), &mut v);
            }
            (tag(id, &v), Class::Overrun, "fewer elements than declared".into())
        }
        11 => {
            let id = *rng.pick(&[20u64, 25, 21]);
            let mut v = vec![];
            let big = gen::u64_any(rng).max(200);
            enc_ilint(big, &mut v);
            v.push(0);
            (tag(id, &v), Class::Overrun, format!("{} elements in a value of {} bytes", big, v.len()))
        }
        12 => {
            let k = rng.below(4);
            let mut v = vec![];
            enc_ilint(k, &mut v);
            for _ in 0..k + 1 {
                enc_node(&gen::leaf(rng, &cfg), &mut v);
            }
            (tag(21, &v), Class::Corrupted, "more tags than declared".into())
        }
        13 => {
            let mut v = vec![];
            enc_node(&gen::leaf(rng, &cfg), &mut v);
            v.push(0);
            (tag(41, &v), Class::Corrupted, "bytes left over by a payload".into())
        }
        14 => {
            // a key that is not a string
            let mut v = vec![1];
            v.extend_from_slice(*rng.pick(&[&[16u8, 1, b'k', 0][..], &[0, 0, 0], &[18, 0, 0], &[31, 1, 0, 0]]));
            let id = *rng.pick(&[30u64, 31]);
            (tag(id, &v), Class::Corrupted, "a dictionary key that is no string".into())
        }
        15 => (tag(31, &[1, 17, 1, b'k', 16, 1, b'v']), Class::Corrupted, "a value of a string dictionary that is no string".into()),
        16 => {
            let mut v = vec![1];
            let bad = gen::bad_utf8(rng, 20);
            enc_str_tag(&bad, &mut v);
            let id = *rng.pick(&[30u64, 31]);
            enc_str_tag(b"v", &mut v);
            (tag(id, &v), Class::CorruptedIo, "a key that is not UTF-8".into())
        }
        17 => {
            let mut v = vec![1];
            enc_str_tag(b"k", &mut v);
            let mut x = vec![];
            enc_str_tag(b"x", &mut x);
            v.extend_from_slice(&x);
            v.push(0);
            let id = *rng.pick(&[30u64, 31]);
            (tag(id, &v), Class::Corrupted, "bytes left over in a dictionary".into())
        }
        18 => {
            // a number beyond 64 bits: as id, size or value
            let big = [255u8, 255, 255, 255, 255, 255, 255, 255, 255 - rng.below(248) as u8];
            let mut o = vec![];
            match rng.below(3) {
                0 => o.extend_from_slice(&big),
                1 => {
                    o.push(16);
                    o.extend_from_slice(&big);
                }
                _ => {
                    o.push(*rng.pick(&[10u8, 14]));
                    o.extend_from_slice(&big);
                }
            }
            if big[8] < 8 {
                return None;
            }
            (o, Class::CorruptedIo, "a number beyond 64 bits".into())
        }
        19 => {
            // a child larger than its parent
            let id = *rng.pick(&[16u64, 17, 18, 20, 22]);
            let n = 1 + rng.us(40);
            let mut v = ilint(id);
            enc_ilint(n as u64 + 1 + rng.below(100), &mut v);
            v.resize(v.len() + n, 0);
            (tag(22, &v), Class::Overrun, "a child that is larger than its parent".into())
        }
        20 => {
            // 24: the id and size are whole, the rest of the parent is too short for it
            let v = [8u8, 1, 2, 3];
            (tag(22, &v), Class::Overrun, "an implicit tag cut by its parent".into())
        }
        _ => {
            let n = gen::leaf(rng, &cfg);
            let mut b = bytes_of(&n);
            if b.len() < 2 {
                return None;
            }
            let k = 1 + rng.us(b.len() - 1);
            b.truncate(k);
            (b, Class::Ended, format!("a source that ends within {}", n.brief()))
        }
    })
}

/// The conversions between the error types keep the cause.
fn conversions(c: &mut Ctx, rng: &mut Rng) -> R {
    use std::io::ErrorKind as K;
    let m = rng.u64();
    let kinds = [
        K::NotFound, K::PermissionDenied, K::ConnectionReset, K::BrokenPipe, K::WouldBlock, K::InvalidInput, K::InvalidData,
        K::TimedOut, K::WriteZero, K::Interrupted, K::Other, K::UnexpectedEof, K::OutOfMemory, K::Unsupported,
    ];
    let k = *rng.pick(&kinds);
    let e: il2_iltags::io::ErrorKind = std::io::Error::new(k, marker_text(m)).into();
    let t = format!("{:?}", e);
    if k == K::UnexpectedEof {
        ck!(matches!(e, il2_iltags::io::ErrorKind::EndOfData), "an unexpected end converts into {}", t);
    } else {
        ck!(t.contains(&marker_text(m)), "an error of kind {:?} converts into {}", k, t);
        ck!(!matches!(e, il2_iltags::io::ErrorKind::EndOfData), "an error of kind {:?} converts into {}", k, t);
    }
    // io into tags
    let g: ErrorKind = e.into();
    match &g {
        ErrorKind::IOError(x) => ck!(format!("{:?}", x) == t, "{} converts into {:?}", t, g),
        _ => return Err(format!("the I/O error {} converts into {:?}", t, g)),
    }
    c.n("conversions", 1);
    Ok(())
}

pub fn c32(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    {
        let mut r = rng.fork();
        conversions(c, &mut r)?;
    }
    let mut reg = Registry::standard(rng.bool());
    for (i, k) in [
        (40, Kind::PBlob), (41, Kind::PNest), (300, Kind::Seq), (301, Kind::TagArr), (302, Kind::Dict), (310, Kind::Null),
        (311, Kind::U8), (312, Kind::I16), (313, Kind::F32), (314, Kind::U64), (315, Kind::B128),
    ] {
        reg.kinds.insert(i, k);
    }
    for i in [2u64, 5, 6, 9, 12, 13] {
        if rng.one_in(3) {
            reg.kinds.remove(&i);
        }
    }
    let f = factory(&reg, &mut rng);
    let cfg = Cfg { reg: &reg, max_payload: 30, raw_one_in: 8 };
    for _ in 0..if c.interp { 2 } else { 10 } {
        let (inner, class, what) = match defect(&mut rng, &reg) {
            Some(x) => x,
            None => continue,
        };
        let depth = match rng.below(4) {
            0 | 1 => 0,
            2 => rng.range(1, 5),
            _ => rng.range(5, 60),
        };
        let mut b = inner;
        let mut class = class;
        if class == Class::Ended && depth > 0 {
            class = Class::Overrun;
        }
        if class == Class::TooLarge {
            // the content such a tag is missing is not judged
            for _ in 0..depth {
                let w = *rng.pick(&[22u64, 41, 300, 21, 30]);
                let mut m = ilint(w);
                enc_ilint(MAX_TAG - rng.below(100), &mut m);
                match w {
                    21 => m.push(1),
                    30 => {
                        m.push(1);
                        enc_str_tag(b"k", &mut m)
                    }
                    _ => {}
                }
                m.extend_from_slice(&b);
                b = m;
            }
        } else {
            for _ in 0..depth {
                let w = *rng.pick(&[22u64, 21, 30, 41, 300, 301, 302]);
                let mut v = vec![];
                // what follows the defect is well-formed, what precedes it too
                let before = if w == 41 || depth > 8 { 0 } else { rng.below(3) };
                // after content that is cut nothing can follow: it would be taken for the rest
                let after = if w == 41 || depth > 8 || matches!(class, Class::Overrun) { 0 } else { rng.below(3) };
                match w {
                    21 | 301 | 30 | 302 => enc_ilint(before + 1 + after, &mut v),
                    _ => {}
                }
                let dict = w == 30 || w == 302;
                for i in 0..before {
                    if dict {
                        enc_str_tag(format!("b{}", i).as_bytes(), &mut v);
                    }
                    enc_node(&gen::leaf(&mut rng, &cfg), &mut v);
                }
                if dict {
                    enc_str_tag(b"k", &mut v);
                }
                v.extend_from_slice(&b);
                for i in 0..after {
                    if dict {
                        enc_str_tag(format!("z{}", i).as_bytes(), &mut v);
                    }
                    enc_node(&gen::leaf(&mut rng, &cfg), &mut v);
                }
                let mut m = ilint(w);
                enc_ilint(v.len() as u64, &mut m);
                m.extend_from_slice(&v);
                b = m;
            }
        }
        c.case(fnv(&b));
        c.sample(|| format!("{} at depth {}: {}", what, depth, hex(&b)));
        for r in [0, 1, rng.us(ROUTES), rng.us(ROUTES)] {
            match decode_by(&f, r, &b, &mut rng) {
                Ok(t) => return Err(format!("{}: {} ({:?}, depth {}) is accepted by {}: {} as {}", what, hex(&b), class, depth, route_name(r), hex(&b), observe(t.as_ref()).brief())),
                Err(e) => ck!(class_ok(class, &e), "{} ({:?}, depth {}) is reported by {} as {:?}: {}", what, class, depth, route_name(r), e, hex(&b)),
            }
            c.n(&format!("{:?} reported", class), 1);
            c.max("deepest defect", depth);
        }
    }
    // leftover bytes
    let n = gen::small_tree(&mut rng, &cfg, 200);
    let mut b = bytes_of(&n);
    let k = 1 + rng.us(9);
    let e = rng.bytes(k);
    b.extend_from_slice(&e);
    match f.from_bytes(&b) {
        Err(e) if class_ok(Class::Corrupted, &e) => c.n("leftovers reported", 1),
        x => return Err(format!("{} bytes left over are reported as {:?}: {}", k, x.map(|t| observe(t.as_ref()).brief()), hex(&b))),
    }
    // another id than the target's is the cause, whatever follows it
    for i in 0..3 {
        let id = match rng.below(3) {
            0 => rng.below(32),
            1 => gen::custom_id(&mut rng),
            _ => gen::u64_any(&mut rng),
        };
        if id == n.id {
            continue;
        }
        let mut b = ilint(id);
        match if i == 0 { 0 } else { rng.below(4) } {
            0 => {
                enc_ilint(MAX_TAG + 1 + rng.below(1 << 40), &mut b);
            }
            1 => {
                let k = rng.us(20);
                b.extend(rng.bytes(k));
            }
            2 => b.extend(gen::soup(&mut rng)),
            _ => {
                // bytes that are no size at all
                b.push(0xff);
                b.extend([0xff; 8]);
            }
        }
        for k in [0, rng.us(SOURCES)] {
            let mut t = build(&n, &mut rng);
            let (r, _) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
            match r {
                Err(e) if class_ok(Class::Unexpected, &e) => c.n("Unexpected reported", 1),
                x => return Err(format!("a tag {} decoded into a tag {} from {} is reported as {:?}: {}", id, n.id, source_name(k), x, hex(&b))),
            }
        }
    }
    let m = gen::small_tree(&mut rng, &cfg, 100);
    if m.id != n.id {
        let bm = bytes_of(&m);
        for k in [0, rng.us(SOURCES)] {
            let mut t = build(&n, &mut rng);
            let (r, _) = with_source(k, &bm, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
            match r {
                Err(e) if class_ok(Class::Unexpected, &e) => c.n("Unexpected reported", 1),
                x => return Err(format!("a tag {} decoded into a tag {} is reported as {:?}", m.id, n.id, x)),
            }
        }
        match tag_id_downcast_ref::<ILNullTag>(m.id, build(&n, &mut rng).as_ref()) {
            Err(e) if class_ok(Class::Unexpected, &e) => {}
            x => return Err(format!("a tag {} taken for a tag {}: {:?}", n.id, m.id, x.is_ok())),
        }
    }
    // a source that fails says so, however deep the decoder is
    let b = bytes_of(&n);
    let at = rng.us(b.len());
    let marker = rng.u64();
    let text = marker_text(marker);
    for k in 0..4 {
        let err = rng.us(9);
        let r = match k {
            0 => {
                let mut s = PlainReader::new(&b);
                s.fail_at = Some(at);
                s.marker = marker;
                s.err = err;
                f.deserialize(&mut s).map(|_| ())
            }
            1 => {
                let mut s = Frag::new(&b, 7, 0, rng.fork());
                s.fail_at = Some(at);
                s.marker = marker;
                s.err = err;
                f.deserialize(&mut ReadReader::new(&mut s)).map(|_| ())
            }
            2 => {
                let mut s = SeekFrag::new(&b, 7, 0, rng.fork());
                s.f.fail_at = Some(at);
                s.f.marker = marker;
                s.f.err = err;
                f.deserialize(&mut s).map(|_| ())
            }
            _ => {
                let mut s = Frag::new(&b, 7, 0, rng.fork());
                s.fail_at = Some(at);
                s.marker = marker;
                s.err = err;
                let mut t = build(&n, &mut rng);
                f.deserialize_into(&mut ReadReader::new(&mut s), t.as_mut())
            }
        };
        match r {
            Err(TErr::IOError(e)) if format!("{:?}", e).contains(&text) => c.n("source failures reported", 1),
            x => return Err(format!("a source failing at {} of {} bytes of {} is reported as {:?}", at, b.len(), n.brief(), x)),
        }
    }
    // strings on their own
    for (b, class) in [
        (vec![16u8, 1, b'x'], Class::Corrupted),
        (vec![17, 1, 0xff], Class::CorruptedIo),
        (vec![17, 2, b'x'], Class::Ended),
        (vec![17], Class::Ended),
        (vec![17, 251, 0x20, 0, 0, 0], Class::TooLarge),
    ] {

        let k = rng.us(SOURCES);
        let (r, _) = with_source(k, &b, &mut rng, &mut |r| deserialize_string_tag_from_value(r));
        match r {
            Err(e) if class_ok(class, &e) => c.n("string helpers", 1),
            Ok(s) => return Err(format!("{} is accepted as the string {:?}", hex(&b), s)),
            Err(e) => return Err(format!("{} is reported as {:?} by deserialize_string_tag_from_value", hex(&b), e)),
        }
    }
    Ok(())
}
