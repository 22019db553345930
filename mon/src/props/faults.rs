//! C22, C23: faults injected at every position of every destination and source.
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::iomon::*;
use crate::model::*;
use crate::props::trees::note;
use crate::rng::{fnv, Rng};
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use il2_iltags::tags::raw::*;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::*;
use std::fmt::Debug;

/// Fault positions: all of a short run, the ends and a sample of a long one.
fn positions(rng: &mut Rng, n: usize, most: usize) -> Vec<usize> {
    if n <= most {
        return (0..n).collect();
    }
    let k = most / 4;
    let mut v: Vec<usize> = (0..k).collect();
    v.extend(n - k..n);
    for _ in 0..2 * k {
        v.push(rng.us(n));
    }
    v
}

struct Job<'a> {
    what: &'a str,
    want: &'a [u8],
    go: &'a dyn Fn(&mut dyn Writer) -> std::result::Result<(), String>,
}

impl<'a> Job<'a> {
    /// A fault was (or was not) met; out is what arrived.
    fn judge(&self, dest: &str, at: usize, fault: bool, r: std::result::Result<(), String>, out: &[u8]) -> R {
        if fault {
            ck!(r.is_err(), "{} on {}: failure at {} of {} bytes is not reported; {} arrived", self.what, dest, at, self.want.len(), out.len());
            ck!(
                self.want.starts_with(out),
                "{} on {}: failure at {}: what arrived is not a prefix: {}", self.what, dest, at, diff(self.want, out)
            );
        } else {
            ck!(r.is_ok(), "{} on {} fails without a fault: {:?}", self.what, dest, r);
            ck!(self.want == out, "{} on {}: success, but other bytes arrived: {}", self.what, dest, diff(self.want, out));
        }
        Ok(())
    }
    fn all(&self, c: &mut Ctx, rng: &mut Rng, most: usize) -> R {
        let n = self.want.len();
        // no fault: everything arrives, however slowly
        for _ in 0..4 {
            let (m, exact) = match rng.below(3) {
                0 => (1, false),
                1 => (rng.us(30), false),
                _ => fragments(rng),
            };
            let mut f = FragW::new(m, [0, 2, 5][rng.us(3)], rng.fork());
            f.exact = exact;
            let r = (self.go)(&mut WriteWriter::new(&mut f));
            self.judge("a slow stream", n, false, r, &f.out)?;
            c.n("short writes", f.n_short);
            c.n("interruptions", f.n_interrupts);
            let mut f = SeekFragW(FragW::new(m, [0, 2, 5][rng.us(3)], rng.fork()));
            f.0.exact = exact;
            let r = (self.go)(&mut f);
            self.judge("a slow seekable stream", n, false, r, &f.0.out)?;
            c.n("short writes", f.0.n_short);
            c.n("interruptions", f.0.n_interrupts);
        }
        let mut f = FaultWriter::new();
        let r = (self.go)(&mut f);
        let calls = f.calls;
        self.judge("a custom writer", n, false, r, &f.out)?;
        // by call
        for k in positions(rng, calls, most) {
            for times in [1, usize::MAX] {
                let mut f = FaultWriter::new();
                f.fail_call = Some(k);
                f.fail_times = times;
                f.err = rng.us(3);
                let r = (self.go)(&mut f);
                let hit = f.failed > 0;
                ck!(hit, "{}: call {} of {} is not made", self.what, k, calls);
                self.judge("a custom writer failing at a call", k, hit, r, &f.out)?;
                c.n("faults: custom writer, by call", 1);
            }
        }
        // by byte
        for k in positions(rng, n, most) {
            let times = if rng.bool() { 1 } else { usize::MAX };
            let mut f = FaultWriter::new();
            f.fail_byte = Some(k);
            f.fail_times = times;
            f.err = rng.us(9);
            let r = (self.go)(&mut f);
            self.judge("a custom writer", k, f.failed > 0, r, &f.out)?;
            c.n("faults: custom writer, by byte", f.failed.min(1) as u64);
            let mut f = PlainWriter::new();
            f.fail_byte = Some(k);
            f.fail_times = times;
            let r = (self.go)(&mut f);
            self.judge("a bytewise writer", k, f.failed > 0, r, &f.out)?;
            c.n("faults: bytewise writer", f.failed.min(1) as u64);
            let (m, exact) = if rng.bool() { (0, false) } else { fragments(rng) };
            let mut f = FragW::new(m, [0, 3][rng.us(2)], rng.fork());
            f.exact = exact;
            f.fail_byte = Some(k);
            f.fail_times = times;
            f.zero = rng.one_in(3);
            f.err = rng.us(9);
            let zero = f.zero;
            let r = (self.go)(&mut WriteWriter::new(&mut f));
            self.judge(if zero { "a full stream" } else { "a stream" }, k, f.failed > 0, r, &f.out)?;
            c.n("faults: stream", f.failed.min(1) as u64);
            let mut f = SeekFragW(FragW::new(m, [0, 3][rng.us(2)], rng.fork()));
            f.0.exact = exact;
            f.0.fail_byte = Some(k);
            f.0.fail_times = times;
            f.0.zero = zero;
            f.0.err = rng.us(9);
            let r = (self.go)(&mut f);
            self.judge(if zero { "a full seekable stream" } else { "a seekable stream" }, k, f.0.failed > 0, r, &f.0.out)?;
            c.n("faults: seekable stream", f.0.failed.min(1) as u64);
            // memory that is too small
            let mut a = vec![0xEE; k];
            let (r, o) = {
                let mut w = ByteArrayWriter::new(&mut a);
                let r = (self.go)(&mut w);
                (r, w.get_offset())
            };
            self.judge("an array that is too small", k, true, r, &a[..o])?;
            ck!(a[o..].iter().all(|x| *x == 0xEE), "{}: an array of {} was written beyond its offset {}", self.what, k, o);
            let mut a = vec![0xEE; k];
            let (r, o) = {
                let mut w = std::io::Cursor::new(&mut a[..]);
                let r = (self.go)(&mut w);
                (r, w.position() as usize)
            };
            self.judge("a fixed cursor that is too small", k, true, r, &a[..o])?;
            c.n("faults: memory too small", 2);
        }
        // memory that is just large enough
        let mut a = vec![0xEE; n + rng.us(3)];
        let (r, o) = {
            let mut w = ByteArrayWriter::new(&mut a);
            let r = (self.go)(&mut w);
            (r, w.get_offset())
        };
        self.judge("an array", n, false, r, &a[..o])?;
        if n > 0 {
            let mut w = VecWriter::new();
            w.set_read_only(true);
            let r = (self.go)(&mut w);
            self.judge("a read-only vector", 0, true, r, w.as_slice())?;
            let mut v = vec![1, 2, 3];
            {
                let mut w = BorrowedVecWriter::with_offset(&mut v, 1);
                w.set_read_only(true);
                ck!((self.go)(&mut w).is_err(), "{} on a read-only borrowed vector succeeds", self.what);
            }
            ck!(v == [1, 2, 3], "{}: a read-only vector was changed to {}", self.what, hex(&v));
        }
        Ok(())
    }
}

fn s<E: Debug>(r: std::result::Result<(), E>) -> std::result::Result<(), String> {
    r.map_err(|e| format!("{:?}", e))
}

pub fn c22(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let cfg = Cfg::new(&reg);
    let (n, most) = match rng.below(12) {
        0 => (gen::tree(&mut rng, &cfg), 16),
        1 => (gen::leaf(&mut rng, &cfg), 80),
        _ => (gen::small_tree(&mut rng, &cfg, 300), 120),
    };
    let most = if c.interp { 3 } else { most };
    note(c, &n);
    let want = bytes_of(&n);
    c.case(fnv(&want));
    c.sample(|| format!("{}: every write of {} bytes made to fail", n.brief(), want.len()));
    let t = build(&n, &mut rng);
    let what = n.brief();
    Job { what: &what, want: &want, go: &|w| s(t.serialize(w)) }.all(c, &mut rng, most)?;
    // the tag itself is unharmed
    ck!(ser(t.as_ref())? == want, "{} serializes differently after failures", what);
    let v = value_bytes(&n);
    Job { what: "serialize_value", want: &v, go: &|w| s(t.serialize_value(w)) }.all(c, &mut rng, most / 4)?;
    // single values
    let u = gen::u64_any(&mut rng);
    let i = gen::i64_any(&mut rng);
    let e = ilint_bytes(u);
    let z = ilint_bytes(zigzag(i));
    let be = u.to_be_bytes();
    let most = if c.interp { 2 } else { 40 };
    match rng.below(14) {
        0 => Job { what: "write_ilint", want: &e, go: &|w| s(write_ilint(u, w)) }.all(c, &mut rng, most)?,
        1 => Job { what: "ilint::encode", want: &e, go: &|w| s(ilint::encode(u, w)) }.all(c, &mut rng, most)?,
        2 => Job { what: "serialize_ilint", want: &e, go: &|w| s(serialize_ilint(u, w)) }.all(c, &mut rng, most)?,
        3 => Job { what: "ILIntWriter", want: &e, go: &|w| s(ILIntWriter::write_ilint(w, u)) }.all(c, &mut rng, most)?,
        4 => Job { what: "write_signed_ilint", want: &z, go: &|w| s(write_signed_ilint(i, w)) }.all(c, &mut rng, most)?,
        5 => Job { what: "signed_encode", want: &z, go: &|w| s(ilint::signed_encode(i, w)) }.all(c, &mut rng, most)?,
        6 => Job { what: "serialize_signed_ilint", want: &z, go: &|w| s(w.serialize_signed_ilint(i)) }.all(c, &mut rng, most)?,
        7 => Job { what: "write_u64", want: &be, go: &|w| s(write_u64(u, w)) }.all(c, &mut rng, most)?,
        8 => Job { what: "write_value::<i64>", want: &be, go: &|w| s(w.write_value(u as i64)) }.all(c, &mut rng, most)?,
        9 => Job { what: "serialize_value::<f64>", want: &be, go: &|w| s(w.serialize_value(f64::from_bits(u))) }.all(c, &mut rng, most)?,
        10 => {
            let x = be[6..].to_vec();
            Job { what: "write_u16", want: &x, go: &|w| s(write_u16(u as u16, w)) }.all(c, &mut rng, most)?;
            let x = be[4..].to_vec();
            Job { what: "write_f32", want: &x, go: &|w| s(write_f32(f32::from_bits(u as u32), w)) }.all(c, &mut rng, most)?;
            let x = be[7..].to_vec();
            Job { what: "write_i8", want: &x, go: &|w| s(write_i8(u as i8, w)) }.all(c, &mut rng, most)?
        }
        11 => {
            let t = gen::string(&mut rng, 60);
            let mut b = vec![];
            enc_str_tag(t.as_bytes(), &mut b);
            Job { what: "serialize_string_tag_from_value", want: &b, go: &|w| s(serialize_string_tag_from_value(&t, w)) }.all(c, &mut rng, most)?
        }
        12 => {
            let t = gen::string(&mut rng, 60);
            Job { what: "write_string", want: t.as_bytes(), go: &|w| s(write_string(&t, w)) }.all(c, &mut rng, most)?
        }
        _ => {
            let x = gen::bytes(&mut rng, 700);
            Job { what: "serialize_bytes", want: &x, go: &|w| s(serialize_bytes(&x, w)) }.all(c, &mut rng, most)?;
            Job { what: "serialize_byte_vec", want: &x, go: &|w| s(w.serialize_byte_vec(&x)) }.all(c, &mut rng, most)?
        }
    }
    c.n("single values", 1);
    typed_writers(c, &mut rng)?;
    failing_payload(c, &mut rng)?;
    Ok(())
}

/// The typed interfaces (write_value and serialize_value of a concrete writer, of
/// &mut dyn ValueWriter<T> and of &mut dyn Writer; the ILInt ones likewise), each made to fail at
/// every byte.
fn typed_writers(c: &mut Ctx, rng: &mut Rng) -> R {
    let u = gen::u64_any(rng);
    let i = gen::i64_any(rng);
    let t = gen::string(rng, 12);
    let x = gen::bytes(rng, 20);
    let be = u.to_be_bytes();
    let mut seen = 0u64;
    macro_rules! at {
        ($what: expr, $want: expr, $w: ident, $go: expr) => {{
            let want: &[u8] = &$want[..];
            for k in 0..=want.len() {
                // whole requests
                let mut f = FaultWriter::new();
                f.fail_byte = Some(k);
                f.err = rng.us(9);
                f.fail_times = if rng.bool() { 1 } else { usize::MAX };
                let r = {
                    let $w = &mut f;
                    s($go)
                };
                let j = Job { what: $what, want, go: &|_| Ok(()) };
                j.judge("a custom writer", k, f.failed > 0, r, &f.out)?;
                seen += f.failed.min(1) as u64;
                // byte by byte
                let mut f = PlainWriter::new();
                f.fail_byte = Some(k);
                f.fail_times = if rng.bool() { 1 } else { usize::MAX };
                let r = {
                    let $w = &mut f;
                    s($go)
                };
                j.judge("a bytewise writer", k, f.failed > 0, r, &f.out)?;
                seen += f.failed.min(1) as u64;
                // streams
                let mut f = SeekFragW(FragW::new(rng.us(3), [0, 3][rng.us(2)], rng.fork()));
                f.0.fail_byte = Some(k);
                f.0.zero = rng.one_in(3);
                f.0.err = rng.us(9);
                let r = {
                    let $w = &mut f;
                    s($go)
                };
                j.judge("a seekable stream", k, f.0.failed > 0, r, &f.0.out)?;
                seen += f.0.failed.min(1) as u64;
                // memory
                let mut a = vec![0xEE; k];
                let (r, o) = {
                    let mut m = ByteArrayWriter::new(&mut a);
                    let r = {
                        let $w = &mut m;
                        s($go)
                    };
                    (r, m.get_offset())
                };
                j.judge("an array", k, k < want.len(), r, &a[..o])?;
            }
        }};
    }
    macro_rules! value {
        ($t: ty, $v: expr, $b: expr) => {{
            let b = $b;
            match rng.below(5) {
                0 => at!(concat!("ValueWriter<", stringify!($t), ">"), b, w, ValueWriter::<$t>::write_value(w, $v)),
                1 => at!(concat!("ValueSerializer<", stringify!($t), ">"), b, w, ValueSerializer::<$t>::serialize_value(w, $v)),
                2 => at!(concat!("dyn ValueWriter<", stringify!($t), ">"), b, w, {
                    let d: &mut dyn ValueWriter<$t> = w;
                    d.serialize_value($v)
                }),
                3 => at!(concat!("dyn Writer as ValueWriter<", stringify!($t), ">"), b, w, {
                    let d: &mut dyn Writer = w;
                    ValueWriter::<$t>::write_value(d, $v)
                }),
                _ => at!(concat!("dyn Writer as ValueSerializer<", stringify!($t), ">"), b, w, {
                    let d: &mut dyn Writer = w;
                    ValueSerializer::<$t>::serialize_value(d, $v)
                }),
            }
        }};
    }
    let rounds = if c.interp { 1 } else { 3 };
    for _ in 0..rounds {
        match rng.below(15) {
            0 => value!(u8, u as u8, &be[7..]),
            1 => value!(i8, u as i8, &be[7..]),
            2 => value!(u16, u as u16, &be[6..]),
            3 => value!(i16, u as i16, &be[6..]),
            4 => value!(u32, u as u32, &be[4..]),
            5 => value!(i32, u as i32, &be[4..]),
            6 => value!(u64, u, &be),
            7 => value!(i64, u as i64, &be),
            8 => value!(f32, f32::from_bits(u as u32), &be[4..]),
            9 => value!(f64, f64::from_bits(u), &be),
            10 => value!(&str, t.as_str(), t.as_bytes()),
            11 => {
                let b = ilint_bytes(u);
                at!("ILIntWriter", b, w, ILIntWriter::write_ilint(w, u));
                at!("ILIntSerializer", b, w, ILIntSerializer::serialize_ilint(w, u))
            }
            12 => {
                let b = ilint_bytes(u);
                at!("dyn ILIntWriter", b, w, {
                    let d: &mut dyn ILIntWriter = w;
                    d.serialize_ilint(u)
                });
                at!("dyn Writer as ILIntSerializer", b, w, {
                    let d: &mut dyn Writer = w;
                    d.serialize_ilint(u)
                })
            }
            13 => {
                let b = ilint_bytes(zigzag(i));
                at!("SignedILIntWriter", b, w, SignedILIntWriter::write_signed_ilint(w, i));
                at!("SignedILIntSerializer", b, w, SignedILIntSerializer::serialize_signed_ilint(w, i));
                at!("dyn SignedILIntWriter", b, w, {
                    let d: &mut dyn SignedILIntWriter = w;
                    d.serialize_signed_ilint(i)
                });
                at!("dyn Writer as SignedILIntWriter", b, w, {
                    let d: &mut dyn Writer = w;
                    SignedILIntWriter::write_signed_ilint(d, i)
                })
            }
            _ => {
                at!("ByteArraySerializer", x, w, ByteArraySerializer::serialize_bytes(w, &x));
                at!("dyn Writer as ByteArraySerializer", x, w, {
                    let d: &mut dyn Writer = w;
                    d.serialize_bytes(&x)
                })
            }
        }
    }
    c.n("faults: typed writers", seen);
    Ok(())
}

#[derive(Default, Clone)]
struct Broken {
    data: Vec<u8>,
    /// how many bytes are written before the payload gives up
    at: usize,
    kind: usize,
    whole: bool,
}

impl il2_iltags::tags::payload::ILTagPayload for Broken {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        if self.at >= self.data.len() {
            return w.serialize_bytes(&self.data);
        }
        if self.whole {
            w.serialize_bytes(&self.data[..self.at])?;
        } else {
            for b in &self.data[..self.at] {
                w.write(*b)?;
            }
        }
        Err(match self.kind {
            0 => ErrorKind::CorruptedData,
            1 => ErrorKind::TagTooLarge,
            2 => ErrorKind::UnsupportedTag,
            3 => ErrorKind::IOError(il2_iltags::io::ErrorKind::UnableToWriteData),
            4 => ErrorKind::IOError(il2_iltags::io::ErrorKind::EndOfData),
            _ => ErrorKind::UnableToSerialize,
        })
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, size: usize, r: &mut dyn Reader) -> Result<()> {
        self.data = r.deserialize_bytes(size)?;
        Ok(())
    }
}

/// A tag whose own payload gives up half way: no operation may take it for written.
fn failing_payload(c: &mut Ctx, rng: &mut Rng) -> R {
    use il2_iltags::tags::payload::ILGenericPayloadTag;
    let m = [3usize, 20, 300][rng.us(3)];
    let n = 1 + rng.us(m);
    let data = rng.bytes(n);
    let broken = Broken { data: data.clone(), at: rng.us(n), kind: rng.us(6), whole: rng.bool() };
    let sound = Broken { data, at: n, ..broken.clone() };
    let id = 32 + rng.below(100_000);
    let of = |p: &Broken| {
        let mut t: ILGenericPayloadTag<Broken> = ILGenericPayloadTag::new(id);
        *t.mut_payload() = p.clone();
        t
    };
    let b = || of(&broken);
    let s = || of(&sound);
    let at = broken.at;
    ck!(s().to_bytes().is_ok(), "a sound payload of {} bytes is not serialized", n);
    ck!(b().to_bytes().is_err(), "to_bytes takes a payload that failed after {} of {} bytes for written", at, n);
    let mut w = VecWriter::new();
    ck!(b().serialize(&mut w).is_err(), "serialize takes a payload that failed after {} of {} bytes for written", at, n);
    let mut w = VecWriter::new();
    ck!(b().serialize_value(&mut w).is_err(), "serialize_value takes a payload that failed after {} of {} bytes for written", at, n);
    // inside others
    let mut a = ILTagArrayTag::with_id(40);
    let mut q = ILTagSeqTag::with_id(41);
    let mut d = ILDictTag::with_id(42);
    let k = rng.us(4);
    for j in 0..4 {
        let t: Box<dyn ILTag> = if j == k { Box::new(b()) } else { Box::new(s()) };
        match rng.below(3) {
            0 => {
                a.mut_value().push(t);
            }
            1 => {
                q.mut_value().push(t);
            }
            _ => {
                d.insert(&format!("k{}", j), t);
            }
        }
    }
    let results = [a.to_bytes().is_ok(), q.to_bytes().is_ok(), d.to_bytes().is_ok()];
    ck!(
        results.iter().filter(|r| !**r).count() == 1,
        "of a sequence, an array and a dictionary, with a broken payload in one of them, to_bytes gives {:?}", results
    );
    c.n("broken payloads", 1);
    Ok(())
}

fn ilint_bytes(v: u64) -> Vec<u8> {
    crate::model::ilint(v)
}

// ---------------------------------------------------------------- C23

struct Read<'a> {
    what: &'a str,
    data: &'a [u8],
    /// Ok when the operation succeeded, with what it found
    go: &'a dyn Fn(&mut dyn Reader) -> std::result::Result<(), String>,
}

impl<'a> Read<'a> {
    fn judge(&self, src: &str, at: usize, hit: bool, m: u64, r: std::result::Result<(), String>) -> R {
        if hit {
            match r {
                Ok(()) => return Err(format!("{} from {}: a failure at {} of {} is taken for success", self.what, src, at, hex(self.data))),
                Err(e) => ck!(
                    e.contains(&marker_text(m)),
                    "{} from {}: the failure at {} of {} is reported as {}", self.what, src, at, hex(self.data), e
                ),
            }
        } else {
            ck!(r.is_ok(), "{} from {} fails without a fault: {:?}", self.what, src, r);
        }
        Ok(())
    }
    fn all(&self, c: &mut Ctx, rng: &mut Rng, most: usize) -> R {
        let n = self.data.len();
        for k in positions(rng, n, most) {
            let times = if rng.bool() { 1 } else { usize::MAX };
            let m = rng.u64();
            let e = rng.us(27);
            let wrap = rng.one_in(3);
            let lim = n + rng.us(3);
            let go = |r: &mut dyn Reader| {
                if wrap {
                    (self.go)(&mut LimitedReader::new(r, lim))
                } else {
                    (self.go)(r)
                }
            };
            let mut p = PlainReader::new(self.data);
            p.fail_at = Some(k);
            p.fail_times = times;
            p.marker = m;
            p.err = e;
            let r = go(&mut p);
            self.judge("a custom reader", k, p.failed > 0, m, r)?;
            c.n("faults: custom reader, by byte", p.failed.min(1) as u64);
            let (max, exact) = if rng.bool() { (0, false) } else { fragments(rng) };
            let mut f = Frag::new(self.data, max, [0, 3][rng.us(2)], rng.fork());
            f.exact = exact;
            f.fail_at = Some(k);
            f.fail_times = times;
            f.marker = m;
            f.err = e;
            let r = go(&mut ReadReader::new(&mut f));
            self.judge("a stream", k, f.failed > 0, m, r)?;
            c.n("faults: stream", f.failed.min(1) as u64);
            let mut f = SeekFrag::new(self.data, max, [0, 3][rng.us(2)], rng.fork());
            f.f.exact = exact;
            f.f.fail_at = Some(k);
            f.f.fail_times = times;
            f.f.marker = m;
            f.f.err = e;
            let r = go(&mut f);
            self.judge("a seekable stream", k, f.f.failed > 0, m, r)?;
            c.n("faults: seekable stream", f.f.failed.min(1) as u64);
            let mut f = SeekFrag::new(self.data, 0, 0, rng.fork());
            f.f.fail_at = Some(k);
            f.f.marker = m;
            f.f.err = e;
            f.f.fail_times = times;
            let cap = 1 + rng.us(12);
            let (r, hit) = {
                let mut b = std::io::BufReader::with_capacity(cap, f);
                let r = go(&mut b);
                (r, b.get_ref().f.failed > 0)
            };
            // (what was buffered ahead may fail later than needed)
            if hit && k + cap < n {
                self.judge("a buffered stream", k, hit, m, r)?;
                c.n("faults: buffered stream", 1);
            }
        }
        // by request
        let mut b = BulkReader::new(self.data);
        (self.go)(&mut b).map_err(|e| format!("{} fails: {}", self.what, e))?;
        let calls = b.calls;
        for k in positions(rng, calls, most) {
            let mut b = BulkReader::new(self.data);
            b.fail_call = Some(k);
            b.fail_times = if rng.bool() { 1 } else { usize::MAX };
            b.marker = rng.u64();
            b.err = rng.us(27);
            let r = (self.go)(&mut b);
            let (hit, m) = (b.failed > 0, b.marker);
            self.judge("a custom reader failing at a request", k, hit, m, r)?;
            c.n("faults: custom reader, by request", hit as u64);
        }
        // by seek
        let mut f = SeekFrag::new(self.data, 0, 0, rng.fork());
        (self.go)(&mut f).map_err(|e| format!("{} fails: {}", self.what, e))?;
        for k in 0..f.seeks.min(if c.interp { 2 } else { 60 }) {
            let mut f = SeekFrag::new(self.data, 0, 0, rng.fork());
            f.fail_seek = Some(k);
            f.f.marker = rng.u64();
            f.f.err = rng.us(27);
            let r = (self.go)(&mut f);
            let (hit, m) = (f.seeks > k, f.f.marker);
            self.judge("a seekable stream failing at a seek", k as usize, hit, m, r)?;
            c.n("faults: seek", hit as u64);
        }
        Ok(())
    }
}

pub fn c23(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let (n, most) = match rng.below(12) {
        0 => (gen::tree(&mut rng, &cfg), 16),
        1 => (gen::leaf(&mut rng, &cfg), 60),
        _ => (gen::small_tree(&mut rng, &cfg, 300), 120),
    };
    let most = if c.interp { 3 } else { most };
    note(c, &n);
    let b = if rng.one_in(6) { gen::padded(&mut rng, &n) } else { bytes_of(&n) };
    c.case(fnv(&b));
    c.sample(|| format!("{}: every read of {} made to fail", n.brief(), hex(&b)));
    let what = format!("decoding {}", n.brief());
    Read {
        what: &what,
        data: &b,
        go: &|r| {
            let t = f.deserialize(r).map_err(|e| format!("{:?}", e))?;
            if observe(t.as_ref()) != n {
                return Err(format!("wrong value {}", observe(t.as_ref()).brief()));
            }
            Ok(())
        },
    }
    .all(c, &mut rng, most)?;
    // the factory is as good as before
    let t = f.from_bytes(&b).map_err(|e| format!("after failures, {} does not decode: {:?}", hex(&b), e))?;
    ck!(observe(t.as_ref()) == n, "after failures, {} decodes as {}", hex(&b), observe(t.as_ref()).brief());
    c.n("retries", 1);
    // into one tag, over and over
    let cell = std::cell::RefCell::new(build(&n, &mut rng));
    Read {
        what: "decoding into a tag",
        data: &b,
        go: &|r| {
            let mut t = cell.borrow_mut();
            f.deserialize_into(r, t.as_mut()).map_err(|e| format!("{:?}", e))?;
            if observe(t.as_ref()) != n {
                return Err(format!("wrong value {}", observe(t.as_ref()).brief()));
            }
            Ok(())
        },
    }
    .all(c, &mut rng, most / 3)?;
    {
        let mut t = cell.into_inner();
        let mut r = ByteArrayReader::new(&b);
        f.deserialize_into(&mut r, t.as_mut()).map_err(|e| format!("after failures, {} does not decode: {:?}", hex(&b), e))?;
        ck!(observe(t.as_ref()) == n, "after failures, {} decodes as {}", hex(&b), observe(t.as_ref()).brief());
        c.n("retries", 1);
    }
    // scanning
    let mut seq = vec![];
    let mut count = 0;
    for _ in 0..rng.range(1, 4) {
        seq.extend_from_slice(&bytes_of(&gen::small_tree(&mut rng, &cfg, 120)));
        count += 1;
    }
    Read {
        what: "scanning",
        data: &seq,
        go: &|r| {
            let mut d = Dyn(r);
            let mut s = RawTagScanner::new(&mut d);
            for _ in 0..count {
                match s.next_tag() {
                    Ok(Some(_)) => {}
                    Ok(None) => return Err("no tag".into()),
                    Err(e) => return Err(format!("{:?}", e)),
                }
            }
            Ok(())
        },
    }
    .all(c, &mut rng, most / 3)?;
    c.n("scans", 1);
    // single values
    let u = gen::u64_any(&mut rng);
    let i = gen::i64_any(&mut rng);
    let e = ilint_bytes(u);
    let z = ilint_bytes(zigzag(i));
    let be = u.to_be_bytes();
    fn ok<T, E: Debug>(r: std::result::Result<T, E>) -> std::result::Result<(), String> {
        r.map(|_| ()).map_err(|e| format!("{:?}", e))
    }
    let most = if c.interp { 2 } else { 40 };
    match rng.below(16) {
        0 => Read { what: "read_ilint", data: &e, go: &|r| ok(read_ilint(r)) }.all(c, &mut rng, most)?,
        1 => Read { what: "ilint::decode", data: &e, go: &|r| ok(ilint::decode(r)) }.all(c, &mut rng, most)?,
        2 => Read { what: "deserialize_ilint", data: &e, go: &|r| ok(deserialize_ilint(r)) }.all(c, &mut rng, most)?,
        3 => Read { what: "ILIntReader", data: &e, go: &|r| ok(ILIntReader::read_ilint(r)) }.all(c, &mut rng, most)?,
        4 => Read { what: "read_signed_ilint", data: &z, go: &|r| ok(read_signed_ilint(r)) }.all(c, &mut rng, most)?,
        5 => Read { what: "signed_decode", data: &z, go: &|r| ok(ilint::signed_decode(r)) }.all(c, &mut rng, most)?,
        6 => Read { what: "deserialize_signed_ilint", data: &z, go: &|r| ok(r.deserialize_signed_ilint()) }.all(c, &mut rng, most)?,
        7 => Read { what: "read_u64", data: &be, go: &|r| ok(read_u64(r)) }.all(c, &mut rng, most)?,
        8 => Read { what: "read_i64", data: &be, go: &|r| ok(read_i64(r)) }.all(c, &mut rng, most)?,
        9 => Read { what: "read_f64", data: &be, go: &|r| ok(read_f64(r)) }.all(c, &mut rng, most)?,
        10 => {
            Read { what: "read_u16", data: &be[..2], go: &|r| ok(read_u16(r)) }.all(c, &mut rng, most)?;
            Read { what: "read_i32", data: &be[..4], go: &|r| ok(read_i32(r)) }.all(c, &mut rng, most)?;
            Read { what: "read_f32", data: &be[..4], go: &|r| ok(read_f32(r)) }.all(c, &mut rng, most)?;
            Read { what: "read_u8", data: &be[..1], go: &|r| ok(read_u8(r)) }.all(c, &mut rng, most)?;
            Read { what: "read_i8", data: &be[..1], go: &|r| ok(read_i8(r)) }.all(c, &mut rng, most)?
        }
        11 => {
            Read { what: "deserialize_value::<u32>", data: &be[..4], go: &|r| ok(ValueDeserializer::<u32>::deserialize_value(r)) }.all(c, &mut rng, most)?;
            Read { what: "read_value::<i16>", data: &be[..2], go: &|r| ok(ValueReader::<i16>::read_value(r)) }.all(c, &mut rng, most)?;
        }
        12 => {
            let t = gen::string(&mut rng, 60);
            let mut b = vec![];
            enc_str_tag(t.as_bytes(), &mut b);
            Read { what: "deserialize_string_tag_from_value", data: &b, go: &|r| ok(deserialize_string_tag_from_value(r)) }.all(c, &mut rng, most)?
        }
        13 => {
            let t = gen::string(&mut rng, 60).into_bytes();
            let l = t.len();
            Read { what: "read_string", data: &t, go: &|r| ok(read_string(r, l)) }.all(c, &mut rng, most)?;
            Read { what: "deserialize_string", data: &t, go: &|r| ok(r.deserialize_string(l)) }.all(c, &mut rng, most)?
        }
        14 => {
            let x = gen::bytes(&mut rng, 700);
            let l = x.len();
            Read { what: "deserialize_bytes", data: &x, go: &|r| ok(deserialize_bytes(l, r)) }.all(c, &mut rng, most)?;
            Read { what: "deserialize_bytes_into_vec", data: &x, go: &|r| ok(deserialize_bytes_into_vec(l, r, &mut vec![1, 2])) }.all(c, &mut rng, most)?;
            Read { what: "deserialize_bytes_into_slice", data: &x, go: &|r| ok(r.deserialize_bytes_into_slice(&mut vec![0; l])) }.all(c, &mut rng, most)?
        }
        _ => {
            let x = gen::bytes(&mut rng, 2000);
            let l = x.len();
            Read { what: "skip", data: &x, go: &|r| ok(r.skip(l)) }.all(c, &mut rng, most)?;
            Read { what: "skip_u64", data: &x, go: &|r| ok(r.skip_u64(l as u64)) }.all(c, &mut rng, most)?;
            Read { what: "goto_end", data: &x, go: &|r| ok(LimitedReader::new(r, l).goto_end()) }.all(c, &mut rng, most)?
        }
    }
    c.n("single values", 1);
    typed_readers(c, &mut rng)?;
    failing_seeks(c, &mut rng)?;
    Ok(())
}

/// The typed interfaces (read_value and deserialize_value of a concrete reader, of
/// &mut dyn ValueReader<T> and of &mut dyn Reader; the ILInt and string ones likewise), each made
/// to fail at every byte.
fn typed_readers(c: &mut Ctx, rng: &mut Rng) -> R {
    let u = gen::u64_any(rng);
    let i = gen::i64_any(rng);
    let t = gen::string(rng, 12);
    let x = gen::bytes(rng, 20);
    let be = u.to_be_bytes();
    let mut seen = 0u64;
    fn ok<T, E: Debug>(r: std::result::Result<T, E>, good: &dyn Fn(&T) -> bool) -> std::result::Result<(), String> {
        match r {
            Ok(v) if good(&v) => Ok(()),
            Ok(_) => Err("wrong value".into()),
            Err(e) => Err(format!("{:?}", e)),
        }
    }
    macro_rules! at {
        ($what: expr, $data: expr, $r: ident, $go: expr, $good: expr) => {{
            let data: &[u8] = &$data[..];
            let j = Read { what: $what, data, go: &|_| Ok(()) };
            for k in 0..=data.len() {
                let m = rng.u64();
                let mut f = PlainReader::new(data);
                f.fail_at = Some(k);
                f.fail_times = if rng.bool() { 1 } else { usize::MAX };
                f.marker = m;
                f.err = rng.us(27);
                let r = {
                    let $r = &mut f;
                    ok($go, $good)
                };
                j.judge("a custom reader", k, f.failed > 0, m, r)?;
                seen += f.failed.min(1) as u64;
                let mut f = SeekFrag::new(data, rng.us(3), [0, 3][rng.us(2)], rng.fork());
                f.f.fail_at = Some(k);
                f.f.marker = m;
                f.f.err = rng.us(27);
                let r = {
                    let $r = &mut f;
                    ok($go, $good)
                };
                j.judge("a seekable stream", k, f.f.failed > 0, m, r)?;
                seen += f.f.failed.min(1) as u64;
                let mut f = Frag::new(data, rng.us(3), [0, 3][rng.us(2)], rng.fork());
                f.fail_at = Some(k);
                f.marker = m;
                f.err = rng.us(27);
                let r = {
                    let mut rr = ReadReader::new(&mut f);
                    let $r = &mut rr;
                    ok($go, $good)
                };
                j.judge("a stream", k, f.failed > 0, m, r)?;
                seen += f.failed.min(1) as u64;
                // the data ends
                let r = {
                    let mut rr = ByteArrayReader::new(&data[..k]);
                    let $r = &mut rr;
                    ok($go, $good)
                };
                ck!(r.is_ok() == (k == data.len()), "{} of {} bytes of {} gives {:?}", $what, k, hex(data), r);
            }
        }};
    }
    macro_rules! value {
        ($t: ty, $b: expr, $good: expr) => {{
            let b = $b;
            match rng.below(5) {
                0 => at!(concat!("ValueReader<", stringify!($t), ">"), b, r, ValueReader::<$t>::read_value(r), $good),
                1 => at!(concat!("ValueDeserializer<", stringify!($t), ">"), b, r, ValueDeserializer::<$t>::deserialize_value(r), $good),
                2 => at!(concat!("dyn ValueReader<", stringify!($t), ">"), b, r, {
                    let d: &mut dyn ValueReader<$t> = r;
                    d.deserialize_value()
                }, $good),
                3 => at!(concat!("dyn Reader as ValueReader<", stringify!($t), ">"), b, r, {
                    let d: &mut dyn Reader = r;
                    ValueReader::<$t>::read_value(d)
                }, $good),
                _ => at!(concat!("dyn Reader as ValueDeserializer<", stringify!($t), ">"), b, r, {
                    let d: &mut dyn Reader = r;
                    ValueDeserializer::<$t>::deserialize_value(d)
                }, $good),
            }
        }};
    }
    let rounds = if c.interp { 1 } else { 3 };
    for _ in 0..rounds {
        match rng.below(15) {
            0 => value!(u8, &be[7..], &|v: &u8| *v == u as u8),
            1 => value!(i8, &be[7..], &|v: &i8| *v == u as i8),
            2 => value!(u16, &be[6..], &|v: &u16| *v == u as u16),
            3 => value!(i16, &be[6..], &|v: &i16| *v == u as i16),
            4 => value!(u32, &be[4..], &|v: &u32| *v == u as u32),
            5 => value!(i32, &be[4..], &|v: &i32| *v == u as i32),
            6 => value!(u64, &be, &|v: &u64| *v == u),
            7 => value!(i64, &be, &|v: &i64| *v == u as i64),
            8 => value!(f32, &be[4..], &|v: &f32| v.to_bits() == u as u32 || v.is_nan()),
            9 => value!(f64, &be, &|v: &f64| v.to_bits() == u || v.is_nan()),
            10 => {
                let b = ilint_bytes(u);
                let g = &|v: &u64| *v == u;
                at!("ILIntReader", b, r, ILIntReader::read_ilint(r), g);
                at!("ILIntDeserializer", b, r, ILIntDeserializer::deserialize_ilint(r), g)
            }
            11 => {
                let b = ilint_bytes(u);
                let g = &|v: &u64| *v == u;
                at!("dyn ILIntReader", b, r, {
                    let d: &mut dyn ILIntReader = r;
                    d.deserialize_ilint()
                }, g);
                at!("dyn Reader as ILIntDeserializer", b, r, {
                    let d: &mut dyn Reader = r;
                    d.deserialize_ilint()
                }, g)
            }
            12 => {
                let b = ilint_bytes(zigzag(i));
                let g = &|v: &i64| *v == i;
                at!("SignedILIntReader", b, r, SignedILIntReader::read_signed_ilint(r), g);
                at!("SignedILIntDeserializer", b, r, SignedILIntDeserializer::deserialize_signed_ilint(r), g);
                at!("dyn SignedILIntReader", b, r, {
                    let d: &mut dyn SignedILIntReader = r;
                    d.deserialize_signed_ilint()
                }, g);
                at!("dyn Reader as SignedILIntReader", b, r, {
                    let d: &mut dyn Reader = r;
                    SignedILIntReader::read_signed_ilint(d)
                }, g)
            }
            13 => {
                let g = &|v: &String| *v == t;
                let l = t.len();
                at!("StringValueReader", t.as_bytes(), r, StringValueReader::read_string(r, l), g);
                at!("StringDeserializer", t.as_bytes(), r, StringDeserializer::deserialize_string(r, l), g);
                at!("dyn StringValueReader", t.as_bytes(), r, {
                    let d: &mut dyn StringValueReader = r;
                    d.deserialize_string(l)
                }, g);
                at!("dyn Reader as StringDeserializer", t.as_bytes(), r, {
                    let d: &mut dyn Reader = r;
                    d.deserialize_string(l)
                }, g)
            }
            _ => {
                let l = x.len();
                at!("ByteArrayDeserializer", x, r, ByteArrayDeserializer::deserialize_bytes(r, l), &|v: &Vec<u8>| *v == x);
                let stale = rng.us(30);
                at!("ByteArrayDeserializer into a vector", x, r, {
                    let mut v = vec![0xEE; stale];
                    r.deserialize_bytes_into_vec(l, &mut v).map(|_| v)
                }, &|v: &Vec<u8>| *v == x);
                at!("dyn Reader as ByteArrayDeserializer", x, r, {
                    let d: &mut dyn Reader = r;
                    d.deserialize_bytes(l)
                }, &|v: &Vec<u8>| *v == x)
            }
        }
    }
    c.n("faults: typed readers", seen);
    Ok(())
}

/// Questions and skips on a seekable stream, within and beyond its data, with each of its seeks
/// made to fail: the failure comes back, or it made no difference to answer and position.
fn failing_seeks(c: &mut Ctx, rng: &mut Rng) -> R {
    use il2_iltags::io::std_io::SizedSeek;
    let n = if rng.one_in(4) { 0 } else { rng.us(40) };
    let data = rng.bytes(n);
    for _ in 0..6 {
        let at = match rng.below(6) {
            0 => 0,
            1 => n,
            2 => n + rng.us(10),
            _ => rng.us(n + 1),
        };
        let op = rng.below(7);
        let count = match rng.below(6) {
            0 => 0,
            1 => n.saturating_sub(at),
            2 => n.saturating_sub(at) + 1,
            3 => n + rng.us(100),
            _ => rng.us(n + 1),
        };
        let run = |s: &mut SeekFrag| -> std::result::Result<u64, String> {
            let e = |x| format!("{:?}", x);
            match op {
                0 => SizedSeek::len(s).map_err(e),
                1 => SizedSeek::offset(s).map_err(e),
                2 => SizedSeek::available(s).map_err(e),
                3 => SizedSeek::is_empty(s).map_err(e).map(|b| b as u64),
                4 => s.skip(count).map_err(e).map(|_| 0),
                5 => s.skip_u64(count as u64).map_err(e).map(|_| 0),
                _ => LimitedReader::new(s, count).goto_end().map_err(e).map(|_| 0),
            }
        };
        let name = ["len", "offset", "available", "is_empty", "skip", "skip_u64", "goto_end"][op as usize];
        let mut s = SeekFrag::new(&data, 0, 0, rng.fork());
        s.f.pos = at;
        let clean = run(&mut s);
        let (end, seeks) = (s.f.pos, s.seeks);
        for k in 0..seeks {
            let mut s = SeekFrag::new(&data, 0, 0, rng.fork());
            s.f.pos = at;
            s.fail_seek = Some(k);
            s.f.marker = rng.u64();
            s.f.err = rng.us(27);
            let m = s.f.marker;
            let r = run(&mut s);
            if s.seeks <= k {
                continue;
            }
            c.n("faults: questions and skips, by seek", 1);
            match &r {
                Err(e) if e.contains(&marker_text(m)) => {}
                _ => ck!(
                    format!("{:?}", r) == format!("{:?}", clean) && s.f.pos == end,
                    "{} ({}) at {} of {} bytes, with seek {} failing, gives {:?} at {}; without failure {:?} at {}",
                    name, count, at, n, k, r, s.f.pos, clean, end
                ),
            }
        }
    }
    Ok(())
}
