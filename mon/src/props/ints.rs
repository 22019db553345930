//! C01-C04: ILInt and primitive values.
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::gen;
use crate::iomon::*;
use crate::model::*;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use il2_iltags::tags::serialization::*;

/// Runs a writing function on every kind of destination and returns what each received.
pub fn on_writers<E: std::fmt::Debug>(
    c: &mut Ctx,
    expect: &[u8],
    what: &str,
    f: &mut dyn FnMut(&mut dyn Writer) -> Result<(), E>,
) -> R {
    let pre = c.rng.us(5);
    for k in 0..8 {
        let (res, got): (Result<(), E>, Vec<u8>) = match k {
            0 => {
                let mut w = VecWriter::new();
                let r = f(&mut w);
                (r, w.into())
            }
            1 => {
                let mut v: Vec<u8> = vec![0x5a; pre];
                let r = {
                    let mut w = BorrowedVecWriter::with_offset(&mut v, pre);
                    let r = f(&mut w);
                    ck!(w.bytes_written() == expect.len() || r.is_err(), "{}: bytes_written {} for {} bytes", what, w.bytes_written(), expect.len());
                    r
                };
                ck!(v[..pre].iter().all(|b| *b == 0x5a), "{}: bytes before the start offset were changed", what);
                (r, v[pre..].to_vec())
            }
            2 => {
                let mut a = vec![0xeeu8; expect.len() + 3];
                let (r, n) = {
                    let mut w = ByteArrayWriter::new(&mut a);
                    let r = f(&mut w);
                    (r, w.get_offset())
                };
                ck!(a[n..].iter().all(|b| *b == 0xee), "{}: bytes after the offset of the array writer were changed", what);
                (r, a[..n].to_vec())
            }
            3 => {
                let mut v = std::io::Cursor::new(Vec::new());
                let r = f(&mut v);
                (r, v.into_inner())
            }
            4 => {
                let mut s: Vec<u8> = Vec::new();
                let r = {
                    let mut w = WriteWriter::new(&mut s);
                    f(&mut w)
                };
                (r, s)
            }
            5 => {
                let mut r2 = c.rng.fork();
                let (m, exact) = if expect.len() < 200 { (1 + pre, false) } else { fragments(&mut r2) };
                let mut s = FragW::new(m, 3, r2);
                s.exact = exact;
                let r = {
                    let mut w = WriteWriter::new(&mut s);
                    f(&mut w)
                };
                (r, s.out)
            }
            6 => {
                let mut w = PlainWriter::new();
                let r = f(&mut w);
                (r, w.out)
            }
            _ => {
                let mut w = VecWriter::with_capacity(pre);
                let r = f(w.as_writer());
                (r, w.vec().clone())
            }
        };
        ck!(res.is_ok(), "{}: writing to destination {} failed: {:?}", what, k, res);
        ck!(got == expect, "{}: destination {} received {} instead of {}", what, k, hex(&got), hex(expect));
        c.n("writes checked", 1);
    }
    Ok(())
}

/// Runs a reading function on every kind of source; it must give `want` and consume `used`.
pub fn on_readers<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(
    c: &mut Ctx,
    data: &[u8],
    used: usize,
    want: &T,
    what: &str,
    f: &mut dyn FnMut(&mut dyn Reader) -> Result<T, E>,
) -> R {
    for k in 0..SOURCES {
        let mut rng = c.rng.fork();
        let (r, pos) = with_source(k, data, &mut rng, &mut |r| f(r));
        match r {
            Ok(v) => ck!(v == *want, "{} from {}: got {:?} instead of {:?} ({})", what, source_name(k), v, want, hex(data)),
            Err(e) => return Err(format!("{} from {}: {:?} instead of {:?} ({})", what, source_name(k), e, want, hex(data))),
        }
        if let Some(p) = pos {
            ck!(p == used, "{} from {}: consumed {} bytes instead of {} ({})", what, source_name(k), p, used, hex(data));
        }
        c.n("reads checked", 1);
    }
    Ok(())
}

/// The value number i of the deterministic part of the sweep, if any: every value up to 70000
/// and the surroundings of every place where the encoding changes.
fn swept(i: u64) -> Option<u64> {
    if i < 70_000 {
        return Some(i);
    }
    let j = i - 70_000;
    let per = 64;
    if j < 64 * per {
        return Some((1u64 << (j / per)).wrapping_add(j % per).wrapping_sub(per / 2));
    }
    let j = j - 64 * per;
    if j < 8 * per {
        return Some(gen::ilint_edges()[(j / per) as usize].wrapping_add(j % per).wrapping_sub(per / 2));
    }
    let j = j - 8 * per;
    if j < 600 {
        return Some(u64::MAX - j);
    }
    let l = &gen::lits().ints;
    let j = j - 600;
    if (j as usize) < l.len() * 3 {
        return Some(l[(j / 3) as usize].wrapping_add(j % 3).wrapping_sub(1));
    }
    None
}

const PER: u64 = 100;

/// cheap entry points, used on every value
fn ilint_quick(v: u64) -> R {
    let e = ilint(v);
    ck!(ilint::encoded_size(v) == e.len(), "encoded_size({}) = {}, encoding has {}", v, ilint::encoded_size(v), e.len());
    ck!(ilint::decoded_size(e[0]) == e.len(), "decoded_size({:#x}) = {} for {}", e[0], ilint::decoded_size(e[0]), v);
    let mut w = VecWriter::new();
    ck!(ilint::encode(v, &mut w).is_ok(), "encode({}) failed", v);
    ck!(w.as_slice() == e.as_slice(), "encode({}) gave {} instead of {}", v, hex(w.as_slice()), hex(&e));
    let mut x = e.clone();
    x.extend_from_slice(&[0xff, 0, 0xf8, 0x55, v as u8, 0xff, 0xff, 0xff, 0xff]);
    match ilint::decode_from_bytes(&x) {
        Ok((u, n)) => ck!(u == v && n == e.len(), "decode_from_bytes({}) = ({}, {})", hex(&x), u, n),
        Err(er) => return Err(format!("decode_from_bytes({}) failed: {:?}", hex(&x), er)),
    }
    match ilint::decode_from_bytes(&e) {
        Ok((u, n)) => ck!(u == v && n == e.len(), "decode_from_bytes({}) = ({}, {})", hex(&e), u, n),
        Err(er) => return Err(format!("decode_from_bytes({}) failed: {:?}", hex(&e), er)),
    }
    if e.len() > 1 {
        match ilint::decode_body(&e[1..]) {
            Ok(u) => ck!(u == v, "decode_body({}) = {}", hex(&e[1..]), u),
            Err(er) => return Err(format!("decode_body({}) failed: {:?}", hex(&e[1..]), er)),
        }
    }
    let mut r = ByteArrayReader::new(&x);
    match ilint::decode(&mut r) {
        Ok(u) => ck!(u == v && r.offset() == e.len(), "decode({}) = {} consuming {}", hex(&x), u, r.offset()),
        Err(er) => return Err(format!("decode({}) failed: {:?}", hex(&x), er)),
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) -> R {
    let i = c.index;
    for j in 0..PER {
        let v = match swept(i * PER + j) {
            Some(v) => v,
            None => gen::u64_any(&mut c.rng),
        };
        ilint_quick(v)?;
        c.case(v);
        c.n(["len 1", "len 2", "len 3", "len 4", "len 5", "len 6", "len 7", "len 8", "len 9"][ilint_len(v) - 1], 1);
    }
    // all entry points on one value
    let v = gen::u64_any(&mut c.rng);
    let e = ilint(v);
    c.sample(|| format!("{} <-> {}", v, hex(&e)));
    on_writers(c, &e, "ilint::encode", &mut |w| ilint::encode(v, w))?;
    on_writers(c, &e, "io::data::write_ilint", &mut |w| write_ilint(v, w))?;
    on_writers(c, &e, "dyn ILIntWriter", &mut |w| w.write_ilint(v))?;
    on_writers(c, &e, "dyn ILIntSerializer", &mut |w| w.serialize_ilint(v))?;
    on_writers(c, &e, "tags::serialize_ilint", &mut |w| il2_iltags::tags::serialize_ilint(v, w))?;
    let mut w = VecWriter::new();
    ILIntWriter::write_ilint(&mut w, v).map_err(|x| format!("{:?}", x))?;
    ILIntSerializer::serialize_ilint(&mut w, v).map_err(|x| format!("{:?}", x))?;
    ck!(w.as_slice() == [e.clone(), e.clone()].concat().as_slice(), "ILIntWriter/ILIntSerializer of VecWriter wrote {}", hex(w.as_slice()));
    {
        let dw: &mut dyn ILIntWriter = &mut w;
        dw.serialize_ilint(v).map_err(|x| format!("{:?}", x))?;
    }
    ck!(w.as_slice().ends_with(&e) && w.as_slice().len() == 3 * e.len(), "dyn ILIntWriter wrote {}", hex(w.as_slice()));

    let mut d = e.clone();
    let tail = c.rng.us(12);
    let t = if c.rng.bool() { vec![0xff; tail] } else { c.rng.bytes(tail) };
    d.extend_from_slice(&t);
    on_readers(c, &d, e.len(), &v, "ilint::decode", &mut |r| ilint::decode(r))?;
    on_readers(c, &d, e.len(), &v, "io::data::read_ilint", &mut |r| read_ilint(r))?;
    on_readers(c, &d, e.len(), &v, "dyn ILIntReader", &mut |r| r.read_ilint())?;
    on_readers(c, &d, e.len(), &v, "dyn ILIntDeserializer", &mut |r| r.deserialize_ilint())?;
    on_readers(c, &d, e.len(), &v, "tags::deserialize_ilint", &mut |r| il2_iltags::tags::deserialize_ilint(r))?;
    let mut r = ByteArrayReader::new(&d);
    let a = ILIntReader::read_ilint(&mut r).map_err(|x| format!("{:?}", x))?;
    r.set_offset(0);
    let b = ILIntDeserializer::deserialize_ilint(&mut r).map_err(|x| format!("{:?}", x))?;
    r.set_offset(0);
    let z = {
        let dr: &mut dyn ILIntReader = &mut r;
        dr.deserialize_ilint().map_err(|x| format!("{:?}", x))?
    };
    ck!(a == v && b == v && z == v, "typed readers gave {} {} {} for {}", a, b, z, v);
    // inside a limited view that ends exactly there
    let mut r = ByteArrayReader::new(&d);
    let mut l = LimitedReader::new(&mut r, e.len());
    let u = ilint::decode(&mut l).map_err(|x| format!("limited: {:?}", x))?;
    ck!(u == v && l.empty(), "limited view: {} for {}", u, v);
    c.n("entry point sweeps", 1);
    // a run of values, one after another
    let vs: Vec<u64> = (0..20).map(|_| gen::u64_any(&mut c.rng)).collect();
    let mut w = VecWriter::new();
    for v in &vs {
        ilint::encode(*v, &mut w).map_err(|x| format!("{:?}", x))?;
    }
    let mut r = VecReader::new(w.as_slice());
    for v in &vs {
        let u = ilint::decode(&mut r).map_err(|x| format!("{:?}", x))?;
        ck!(u == *v, "in sequence: {} instead of {}", u, v);
    }
    ck!(r.available() == 0, "bytes left after decoding a sequence");
    Ok(())
}

fn agree_ilint(what: &str, b: &[u8], want: &Result<(u64, usize), Bad>, got: Option<(u64, usize)>) -> R {
    match (want, got) {
        (Ok(w), Some(g)) => ck!(*w == g, "{} of {}: {:?} instead of {:?}", what, hex(b), g, w),
        (Err(_), None) => {}
        (Ok(w), None) => return Err(format!("{} of {}: refused, is {:?}", what, hex(b), w)),
        (Err(e), Some(g)) => return Err(format!("{} of {}: accepted as {:?}, is {:?}", what, hex(b), g, e)),
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) -> R {
    // every header byte
    for h in 0..=255u8 {
        let want = if h < 248 { 1 } else { h as usize - 246 };
        ck!(ilint::decoded_size(h) == want, "decoded_size({:#x}) = {}", h, ilint::decoded_size(h));
    }
    for j in 0..if c.interp { 8u64 } else { 60 } {
        let mut b: Vec<u8>;
        match c.rng.below(8) {
            0 => {
                let n = c.rng.us(13);
                b = c.rng.bytes(n);
            }
            1 | 2 => {
                b = ilint(gen::u64_any(&mut c.rng));
                let k = c.rng.us(b.len() + 1);
                b.truncate(k);
            }
            3 => {
                // around the largest value that fits
                let v = 0xFFFF_FFFF_FFFF_FF07u64.wrapping_add(c.rng.below(512)).wrapping_sub(256);
                b = vec![0xff];
                b.extend_from_slice(&v.to_be_bytes());
            }
            4 => {
                b = vec![0xff];
                let v = u64::MAX - gen::u64_any(&mut c.rng) % 300;
                b.extend_from_slice(&v.to_be_bytes());
            }
            5 => {
                b = vec![(248 + (c.index * 60 + j) % 8) as u8];
                let n = c.rng.us(12);
                let f = *c.rng.pick(&[0u8, 0xff, 0x80]);
                b.extend(std::iter::repeat(f).take(n));
            }
            6 => {
                b = ilint(gen::u64_any(&mut c.rng));
                let i = c.rng.us(b.len());
                b[i] ^= 1 << c.rng.below(8);
            }
            _ => {
                let k = 248 + c.rng.below(8) as u8;
                let n = c.rng.us(12);
                b = vec![k];
                b.extend(c.rng.bytes(n));
            }
        }
        if c.rng.one_in(3) {
            // with other data after it
            let max = if c.rng.one_in(8) { 300 } else { 24 };
            let n = 1 + c.rng.us(max);
            let t = if c.rng.bool() { c.rng.bytes(n) } else { vec![*c.rng.pick(&[0u8, 0xff, 7, 8]); n] };
            b.extend_from_slice(&t);
            c.n("with data after", 1);
        }
        let want = dec_ilint(&b);
        match &want {
            Ok((v, n)) => {
                c.n("accepted", 1);
                // re-encoding gives the shortest form, the same bytes unless they were padded
                let mut w = VecWriter::new();
                ilint::encode(*v, &mut w).map_err(|x| format!("{:?}", x))?;
                let e = ilint(*v);
                ck!(w.as_slice() == e.as_slice() && e.len() <= *n, "re-encoding {} gives {} instead of {}", v, hex(w.as_slice()), hex(&e));
                if e.len() == *n {
                    ck!(w.as_slice() == &b[..*n], "re-encoding {} gives {} instead of {}", v, hex(w.as_slice()), hex(&b[..*n]));
                    c.n("shortest", 1);
                } else {
                    c.n("padded", 1);
                }
            }
            Err(Bad::Overflow) => c.n("refused: overflow", 1),
            Err(_) => c.n("refused: truncated", 1),
        }
        c.case(crate::rng::fnv(&b));
        agree_ilint("decode_from_bytes", &b, &want, ilint::decode_from_bytes(&b).ok())?;
        // the body alone
        if b.len() > 1 {
            let body = &b[1..];
            let fits = body.len() <= 8 && {
                let mut x: u128 = 248;
                for (i, y) in body.iter().enumerate() {
                    x += (*y as u128) << (8 * (body.len() - 1 - i));
                }
                x <= u64::MAX as u128
            };
            let mut v: u64 = 0;
            if fits {
                for y in body {
                    v = (v << 8) | *y as u64;
                }
            }
            match ilint::decode_body(body) {
                Ok(u) => ck!(fits && u == v + 248, "decode_body({}) = {}", hex(body), u),
                Err(_) => ck!(!fits, "decode_body({}) refused", hex(body)),
            }
            c.n("bodies", 1);
        }
        for k in 0..SOURCES {
            let mut rng = c.rng.fork();
            let (g, p) = with_source(k, &b, &mut rng, &mut |r| ilint::decode(r).ok());
            agree_ilint("decode", &b, &want, g.map(|v| (v, p.unwrap_or(0))))?;
            let g = match (j + k as u64) % 4 {
                0 => with_source(k, &b, &mut rng, &mut |r| read_ilint(r).ok()).0,
                1 => with_source(k, &b, &mut rng, &mut |r| r.deserialize_ilint().ok()).0,
                2 => with_source(k, &b, &mut rng, &mut |r| il2_iltags::tags::deserialize_ilint(r).ok()).0,
                _ => with_source(k, &b, &mut rng, &mut |r| r.read_ilint().ok()).0,
            };
            agree_ilint("typed read", &b, &want, g.map(|v| (v, want.as_ref().map(|x| x.1).unwrap_or(0))))?;
            // signed entry points refuse the same strings
            let g = match (j + k as u64) % 3 {
                0 => with_source(k, &b, &mut rng, &mut |r| ilint::signed_decode(r).ok()).0,
                1 => with_source(k, &b, &mut rng, &mut |r| read_signed_ilint(r).ok()).0,
                _ => with_source(k, &b, &mut rng, &mut |r| r.deserialize_signed_ilint().ok()).0,
            };
            agree_ilint("signed read", &b, &want, g.map(|v| (zigzag(v), want.as_ref().map(|x| x.1).unwrap_or(0))))?;
        }
        // inside a tag: as the value of an ILInt tag and as a size
        let f = il2_iltags::tags::standard::ILStandardTagFactory::new(false);
        use il2_iltags::tags::ILTagFactory;
        let whole = want.as_ref().map(|x| x.1 == b.len()).unwrap_or(false);
        let mut m = vec![10u8];
        m.extend_from_slice(&b);
        let r = f.from_bytes(&m);
        ck!(r.is_ok() == whole, "an ILInt tag holding {} was {}", hex(&b), if r.is_ok() { "accepted" } else { "refused" });
        if let (Ok(t), Ok((v, _))) = (&r, &want) {
            ck!(observe(t.as_ref()) == Node { id: 10, v: Val::ILInt(*v) }, "ILInt tag holding {} decodes to {:?}", hex(&b), observe(t.as_ref()));
        }
        let mut m = vec![20u8];
        enc_ilint(1 + b.len() as u64, &mut m);
        m.push(1);
        m.extend_from_slice(&b);
        let r = f.from_bytes(&m);
        ck!(r.is_ok() == whole, "an ILInt array holding {} was {}", hex(&b), if r.is_ok() { "accepted" } else { "refused" });
        c.n("tags", 2);
    }
    // over-long and empty bodies
    ck!(ilint::decode_body(&[]).is_err(), "an empty body was accepted");
    for n in [9usize, 10, 16, 17, 100, 256, 65536 + 3] {
        let f = *c.rng.pick(&[0u8, 1, 0xff]);
        ck!(ilint::decode_body(&vec![f; n]).is_err(), "a body of {} bytes was accepted", n);
        c.n("over-long bodies", 1);
    }
    ck!(ilint::decode_from_bytes(&[]).is_err(), "an empty string was accepted");
    c.sample(|| "strings of every header byte, truncated, boundary and noise bodies".to_string());
    Ok(())
}

pub fn c03(c: &mut Ctx) -> R {
    let i = c.index;
    for j in 0..PER {
        let n = i * PER + j;
        let v = if n < 140_000 { (n as i64) - 70_000 } else { gen::i64_any(&mut c.rng) };
        let u = zigzag(v);
        ck!(ilint::encode_sign(v) == u, "encode_sign({}) = {}", v, ilint::encode_sign(v));
        ck!(ilint::decode_sign(u) == v, "decode_sign({}) = {}", u, ilint::decode_sign(u));
        let w = gen::u64_any(&mut c.rng);
        ck!(ilint::decode_sign(w) == unzigzag(w), "decode_sign({}) = {}", w, ilint::decode_sign(w));
        ck!(ilint::encode_sign(ilint::decode_sign(w)) == w, "{} is not restored", w);
        ck!(ilint::signed_encoded_size(v) == ilint_len(u), "signed_encoded_size({}) = {}", v, ilint::signed_encoded_size(v));
        let mut out = VecWriter::new();
        ck!(ilint::signed_encode(v, &mut out).is_ok(), "signed_encode({}) failed", v);
        ck!(out.as_slice() == ilint(u).as_slice(), "signed_encode({}) = {}", v, hex(out.as_slice()));
        let mut r = ByteArrayReader::new(out.as_slice());
        let x = ilint::signed_decode(&mut r).map_err(|e| format!("signed_decode of {}: {:?}", v, e))?;
        ck!(x == v && r.available() == 0, "signed_decode({}) = {}", hex(out.as_slice()), x);
        c.case(v as u64);
        c.n(if v < 0 { "negative" } else { "non-negative" }, 1);
    }
    let v = gen::i64_any(&mut c.rng);
    let e = ilint(zigzag(v));
    c.sample(|| format!("{} <-> {} <-> {}", v, zigzag(v), hex(&e)));
    on_writers(c, &e, "signed_encode", &mut |w| ilint::signed_encode(v, w))?;
    on_writers(c, &e, "write_signed_ilint", &mut |w| write_signed_ilint(v, w))?;
    on_writers(c, &e, "dyn SignedILIntWriter", &mut |w| w.write_signed_ilint(v))?;
    on_writers(c, &e, "dyn SignedILIntSerializer", &mut |w| w.serialize_signed_ilint(v))?;
    let mut w = VecWriter::new();
    SignedILIntWriter::write_signed_ilint(&mut w, v).map_err(|x| format!("{:?}", x))?;
    SignedILIntSerializer::serialize_signed_ilint(&mut w, v).map_err(|x| format!("{:?}", x))?;
    {
        let dw: &mut dyn SignedILIntWriter = &mut w;
        dw.serialize_signed_ilint(v).map_err(|x| format!("{:?}", x))?;
    }
    ck!(w.as_slice() == [e.clone(), e.clone(), e.clone()].concat().as_slice(), "typed writers wrote {}", hex(w.as_slice()));
    let mut d = e.clone();
    let tail = c.rng.us(10);
    d.extend(c.rng.bytes(tail));
    on_readers(c, &d, e.len(), &v, "signed_decode", &mut |r| ilint::signed_decode(r))?;
    on_readers(c, &d, e.len(), &v, "read_signed_ilint", &mut |r| read_signed_ilint(r))?;
    on_readers(c, &d, e.len(), &v, "dyn SignedILIntReader", &mut |r| r.read_signed_ilint())?;
    on_readers(c, &d, e.len(), &v, "dyn SignedILIntDeserializer", &mut |r| r.deserialize_signed_ilint())?;
    let mut r = ByteArrayReader::new(&d);
    let a = SignedILIntReader::read_signed_ilint(&mut r).map_err(|x| format!("{:?}", x))?;
    r.set_offset(0);
    let b = SignedILIntDeserializer::deserialize_signed_ilint(&mut r).map_err(|x| format!("{:?}", x))?;
    r.set_offset(0);
    let z = {
        let dr: &mut dyn SignedILIntReader = &mut r;
        dr.deserialize_signed_ilint().map_err(|x| format!("{:?}", x))?
    };
    ck!(a == v && b == v && z == v, "typed readers gave {} {} {}", a, b, z);
    // through the tag
    use il2_iltags::tags::standard::*;
    use il2_iltags::tags::{ILTag, ILTagFactory};
    let t = ILSignedILInt64Tag::with_value(v);
    ck!(t.value_size() == e.len() as u64, "value_size of the signed tag of {} is {}", v, t.value_size());
    let b = ser(&t)?;
    ck!(b[0] == 14 && b[1..] == e[..], "signed tag of {} serializes to {}", v, hex(&b));
    let f = ILStandardTagFactory::new(true);
    let t = f.from_bytes(&b).map_err(|e| format!("signed tag of {}: {:?}", v, e))?;
    ck!(observe(t.as_ref()) == Node { id: 14, v: Val::SILInt(v) }, "signed tag of {} decodes to {:?}", v, observe(t.as_ref()));
    c.n("entry point sweeps", 1);
    Ok(())
}

macro_rules! prim {
    ($c:ident, $t:ty, $n:expr, $v:expr, $bits:expr, $rf:ident, $wf:ident) => {{
        let v: $t = $v;
        let bits: u64 = $bits;
        let e: Vec<u8> = (0..$n).rev().map(|k| (bits >> (8 * k)) as u8).collect();
        let nm = stringify!($t);
        on_writers($c, &e, concat!("write_", stringify!($t)), &mut |w| $wf(v, w))?;
        on_writers($c, &e, concat!("dyn ValueWriter ", stringify!($t)), &mut |w| w.write_value(v))?;
        on_writers($c, &e, concat!("dyn ValueSerializer ", stringify!($t)), &mut |w| w.serialize_value(v))?;
        let mut w = VecWriter::new();
        ValueWriter::<$t>::write_value(&mut w, v).map_err(|x| format!("{:?}", x))?;
        ValueSerializer::<$t>::serialize_value(&mut w, v).map_err(|x| format!("{:?}", x))?;
        {
            let dw: &mut dyn ValueWriter<$t> = &mut w;
            dw.serialize_value(v).map_err(|x| format!("{:?}", x))?;
        }
        ck!(w.as_slice() == [e.clone(), e.clone(), e.clone()].concat().as_slice(), "typed writers of {} wrote {}", nm, hex(w.as_slice()));
        let mut d = e.clone();
        let tail = $c.rng.us(4);
        d.extend($c.rng.bytes(tail));
        let img = |x: $t| -> Vec<u8> { x.to_ne_bytes().to_vec() };
        let want = img(v);
        on_readers($c, &d, $n, &want, concat!("read_", stringify!($t)), &mut |r| $rf(r).map(|x: $t| img(x)))?;
        on_readers($c, &d, $n, &want, concat!("dyn ValueReader ", stringify!($t)), &mut |r| {
            let x: Result<$t, _> = r.read_value();
            x.map(|x| img(x))
        })?;
        on_readers($c, &d, $n, &want, concat!("dyn ValueDeserializer ", stringify!($t)), &mut |r| {
            let x: Result<$t, _> = r.deserialize_value();
            x.map(|x| img(x))
        })?;
        let mut r = ByteArrayReader::new(&d);
        let a: $t = ValueReader::<$t>::read_value(&mut r).map_err(|x| format!("{:?}", x))?;
        r.set_offset(0);
        let b: $t = ValueDeserializer::<$t>::deserialize_value(&mut r).map_err(|x| format!("{:?}", x))?;
        r.set_offset(0);
        let z: $t = {
            let dr: &mut dyn ValueReader<$t> = &mut r;
            dr.deserialize_value().map_err(|x| format!("{:?}", x))?
        };
        ck!(img(a) == want && img(b) == want && img(z) == want, "typed readers of {} differ for {}", nm, hex(&e));
        // not enough bytes
        if $n > 0 {
            let k = $c.rng.us($n);
            for s in 0..SOURCES {
                let mut rng = $c.rng.fork();
                let (r, _) = with_source(s, &e[..k], &mut rng, &mut |r| $rf(r).is_ok());
                ck!(!r, "{} was read from {} bytes ({})", nm, k, source_name(s));
            }
        }
        $c.case(crate::rng::mix(bits ^ ($n as u64) << 60 ^ nm.len() as u64 ^ (nm.as_bytes()[0] as u64) << 8));
        $c.n(nm, 1);
    }};
}

pub fn c04(c: &mut Ctx) -> R {
    let u = gen::u64_any(&mut c.rng);
    let s = gen::i64_any(&mut c.rng);
    let f = gen::f32_bits(&mut c.rng);
    let d = gen::f64_bits(&mut c.rng);
    let by = if c.index < 256 { c.index as u8 } else { u as u8 };
    let w = if c.rng.bool() { u as u16 } else { c.rng.u64() as u16 };
    let x = if c.rng.bool() { u as u32 } else { c.rng.u64() as u32 };
    prim!(c, u8, 1, by, by as u64, read_u8, write_u8);
    prim!(c, i8, 1, by as i8, by as u64, read_i8, write_i8);
    prim!(c, u16, 2, w, w as u64, read_u16, write_u16);
    prim!(c, i16, 2, w as i16, w as u64, read_i16, write_i16);
    prim!(c, u32, 4, x, x as u64, read_u32, write_u32);
    prim!(c, i32, 4, x as i32, x as u64, read_i32, write_i32);
    prim!(c, u64, 8, u, u, read_u64, write_u64);
    prim!(c, i64, 8, s, s as u64, read_i64, write_i64);
    prim!(c, f32, 4, f32::from_bits(f), f as u64, read_f32, write_f32);
    prim!(c, f64, 8, f64::from_bits(d), d, read_f64, write_f64);

    // text
    let big = c.rng.one_in(20);
    let t = gen::string(&mut c.rng, if big { 70_000 } else { 1100 });
    let e = t.as_bytes().to_vec();
    c.case(crate::rng::fnv(&e));
    c.n("strings", 1);
    c.max("longest string", e.len() as u64);
    on_writers(c, &e, "write_string", &mut |w| write_string(&t, w))?;
    on_writers(c, &e, "dyn ValueWriter str", &mut |w| w.write_value(t.as_str()))?;
    on_writers(c, &e, "dyn ValueSerializer str", &mut |w| w.serialize_value(t.as_str()))?;
    on_writers(c, &e, "serialize_bytes", &mut |w| w.serialize_bytes(&e))?;
    on_writers(c, &e, "tags::serialize_bytes", &mut |w| il2_iltags::tags::serialize_bytes(&e, w))?;
    #[allow(deprecated)]
    on_writers(c, &e, "serialize_byte_vec", &mut |w| w.serialize_byte_vec(&e))?;
    let mut dta = e.clone();
    dta.extend_from_slice(&[0xff, 0x80, b'x']);
    let n = e.len();
    on_readers(c, &dta, n, &t, "read_string", &mut |r| read_string(r, n))?;
    on_readers(c, &dta, n, &t, "dyn StringValueReader", &mut |r| r.read_string(n))?;
    on_readers(c, &dta, n, &t, "dyn StringDeserializer", &mut |r| r.deserialize_string(n))?;
    let mut r = ByteArrayReader::new(&dta);
    let a = StringValueReader::read_string(&mut r, n).map_err(|x| format!("{:?}", x))?;
    r.set_offset(0);
    let b = StringDeserializer::deserialize_string(&mut r, n).map_err(|x| format!("{:?}", x))?;
    ck!(a == t && b == t, "typed string readers differ");
    // bytes
    on_readers(c, &dta, n, &e, "deserialize_bytes", &mut |r| r.deserialize_bytes(n))?;
    on_readers(c, &dta, n, &e, "tags::deserialize_bytes", &mut |r| il2_iltags::tags::deserialize_bytes(n, r))?;
    let old = gen::len(&mut c.rng, 900);
    on_readers(c, &dta, n, &e, "deserialize_bytes_into_vec", &mut |r| {
        let mut v = vec![0xcc; old];
        r.deserialize_bytes_into_vec(n, &mut v).map(|_| v)
    })?;
    on_readers(c, &dta, n, &e, "tags::deserialize_bytes_into_vec", &mut |r| {
        let mut v = vec![0xcc; old];
        il2_iltags::tags::deserialize_bytes_into_vec(n, r, &mut v).map(|_| v)
    })?;
    on_readers(c, &dta, n, &e, "deserialize_bytes_into_slice", &mut |r| {
        let mut v = vec![0xcc; n];
        r.deserialize_bytes_into_slice(&mut v).map(|_| v)
    })?;
    let mut r = VecReader::new(&dta);
    let mut v = vec![];
    ByteArrayDeserializer::deserialize_bytes_into_vec(&mut r, n, &mut v).map_err(|x| format!("{:?}", x))?;
    ck!(v == e && r.offset() == n, "deserialize_bytes_into_vec of VecReader differs");
    // not text
    let huge = c.rng.one_in(12) && !c.interp;
    let bad = if huge {
        let mut g = Vec::new();
        let n = gen::big_len(&mut c.rng, 300_000);
        if c.rng.bool() {
            g.resize(n, b'a' + c.rng.below(26) as u8);
        } else {
            g.extend_from_slice(gen::long_text(&mut c.rng, n).as_bytes());
        }
        let at = *c.rng.pick(&[0, g.len(), g.len() / 2, g.len().saturating_sub(1), g.len().min(65536)]);
        g.insert(at, *c.rng.pick(&[0x80u8, 0xff, 0xc2, 0xed]));
        c.n("long invalid texts", 1);
        g
    } else {
        gen::bad_utf8(&mut c.rng, 700)
    };
    if std::str::from_utf8(&bad).is_ok() {
        return Err("the generator of invalid text is wrong".into());
    }
    let m = bad.len();
    for k in 0..SOURCES {
        if huge && k > 3 && c.rng.one_in(3) {
            continue;
        }
        let mut rng = c.rng.fork();
        let (r, _) = with_source(k, &bad, &mut rng, &mut |r| read_string(r, m));
        match r {
            Ok(s) => return Err(format!("invalid UTF-8 {} was read as {:?}", hex(&bad), s)),
            Err(IErr::CorruptedData) => {}
            Err(e) => return Err(format!("invalid UTF-8 {} was refused as {:?}", hex(&bad), e)),
        }
        let (r, _) = with_source(k, &bad, &mut rng, &mut |r| r.deserialize_string(m).is_ok());
        ck!(!r, "invalid UTF-8 {} was deserialized", hex(&bad));
    }
    c.n("invalid text refused", 1);
    // mixed sequence through one reader of std::io::Read
    let mut w = VecWriter::new();
    w.write_value(x).map_err(|x| format!("{:?}", x))?;
    w.write_value(by as i8).map_err(|x| format!("{:?}", x))?;
    w.write_value(f64::from_bits(d)).map_err(|x| format!("{:?}", x))?;
    w.write_value(w_i16(w_u(u))).map_err(|x| format!("{:?}", x))?;
    let mut s = Frag::new(w.as_slice(), 3, 2, c.rng.fork());
    let mut r = ReadReader::new(&mut s);
    let a: u32 = r.read_value().map_err(|x| format!("{:?}", x))?;
    let b: i8 = r.read_value().map_err(|x| format!("{:?}", x))?;
    let g: f64 = r.read_value().map_err(|x| format!("{:?}", x))?;
    let h: i16 = r.read_value().map_err(|x| format!("{:?}", x))?;
    ck!(a == x && b == by as i8 && g.to_bits() == d && h == w_i16(w_u(u)), "mixed sequence differs");
    c.sample(|| format!("u64 {:#x}, i64 {}, f32 bits {:#x}, f64 bits {:#x}, text of {} bytes", u, s_show(u), f, d, n));
    Ok(())
}

fn w_u(u: u64) -> u64 {
    u
}
fn w_i16(u: u64) -> i16 {
    u as i16
}
fn s_show(u: u64) -> i64 {
    unzigzag(u)
}
