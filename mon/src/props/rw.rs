//! C14, C19-C21, C24, C25: readers, writers, limited views and the raw scanner against models.
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::iomon::*;
use crate::model::*;
use crate::props::trees::note;
use crate::rng::{fnv, mix, Rng};
use il2_iltags::io::array::*;
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{ErrorKind as IE, LimitedReader, ReadReader, Reader, Writer};
use il2_iltags::tags::raw::*;
use il2_iltags::tags::*;
use std::cell::Cell;

// ---------------------------------------------------------------- C14

/// A count that is around the interesting places: 0, what is left in the view, in the source.
fn count_near(rng: &mut Rng, left: usize, more: usize) -> usize {
    match rng.below(10) {
        0 => 0,
        1 => left,
        2 => left.wrapping_add(1),
        3 => left.saturating_sub(1),
        4 => more,
        5 => more.wrapping_add(1),
        6 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, 1 << 31, 512, 513, 1024]),
        7 => rng.us(left.min(3000) + 3),
        8 if left > 3000 => {
            let n = rng.us(left.min(1 << 20) + 9);
            if rng.bool() {
                n
            } else {
                n & !511
            }
        }
        _ => 1 + rng.us(6),
    }
}

struct View<'a> {
    data: &'a [u8],
    pos: &'a Cell<usize>,
    whole: bool,
    log: Vec<String>,
    bad: Option<String>,
    ops: u64,
    refused: u64,
    nested: u64,
    goto_end: u64,
    short: u64,
    deepest: u64,
}

impl<'a> View<'a> {
    fn fail(&mut self, m: String) -> bool {
        if self.bad.is_none() {
            let n = self.log.len();
            self.bad = Some(format!("{} (after {})", m, self.log[n.saturating_sub(14)..].join(", ")));
        }
        false
    }
    /// Works on a limited view of r; `left` is what encloses it (its available bytes).
    /// false: stop.
    fn level(&mut self, rng: &mut Rng, r: &mut dyn Reader, outer: usize, depth: u64) -> bool {
        let near = outer.min(self.data.len() - self.pos.get());
        let limit = match rng.below(6) {
            0 => 0,
            1 => near,
            2 => near.saturating_add(1 + rng.us(5)),
            3 => usize::MAX,
            4 if near > 3000 => rng.us(near.min(1 << 20) + 1),
            _ => rng.us(near.min(400) + 1),
        };
        self.deepest = self.deepest.max(depth);
        let start = self.pos.get();
        let mut l = LimitedReader::new(r, limit);
        // what can be had: the limit, the enclosing views, the source
        let mut left = limit;
        let mut reach = limit.min(outer);
        self.log.push(format!("view of {} at {}", limit, start));
        for _ in 0..rng.range(1, 9) {
            self.ops += 1;
            let before = self.pos.get();
            let here = self.data.len() - before;
            let n = count_near(rng, left, here.min(reach));
            // what the operation asks for, and what it must do
            let op = rng.below(8);
            let (what, asked, ok, got) = match op {
                0 => {
                    let x = l.read();
                    let g = x.is_ok();
                    if let Ok(b) = x {
                        if before >= self.data.len() || b != self.data[before] {
                            return self.fail(format!("read() gave {} at {}", b, before));
                        }
                    }
                    ("read", 1, g, true)
                }
                1 | 2 => {
                    let n = n.min(self.data.len().max(4900) + 100);
                    let mut b = vec![0x77; n];
                    let g = l.read_all(&mut b).is_ok();
                    if g && (before + n > self.data.len() || b != self.data[before..before + n]) {
                        return self.fail(format!("read_all({}) at {} gave other bytes", n, before));
                    }
                    ("read_all", n, g, true)
                }
                3 => ("skip", n, l.skip(n).is_ok(), true),
                4 => ("skip_u64", n, l.skip_u64(n as u64).is_ok(), true),
                5 if rng.one_in(3) => {
                    self.goto_end += 1;
                    ("goto_end", left, l.goto_end().is_ok(), true)
                }
                6 if depth < 3 => {
                    self.nested += 1;
                    let p = self.pos.get();
                    let inner = left.min(reach);
                    if !self.level(rng, &mut l, inner, depth + 1) {
                        return false;
                    }
                    let used = self.pos.get() - p;
                    if used > inner {
                        return self.fail(format!("a nested view consumed {} bytes of {}", used, inner));
                    }
                    left -= used;
                    reach -= used;
                    self.log.push(format!("/view used {}", used));
                    ("nested", 0, true, false)
                }
                _ => ("query", 0, true, false),
            };
            if got {
                let allowed = asked <= left && asked <= reach && asked <= here;
                let used = self.pos.get() as i64 - before as i64;
                self.log.push(format!("{}({}) {} at {}", what, asked, if ok { "ok" } else { "err" }, before));
                if ok != allowed {
                    return self.fail(format!(
                        "{} of {} bytes with {} left in the view, {} in the enclosing one and {} in the source: {}",
                        what, asked, left, reach, here, if ok { "succeeded" } else { "failed" }
                    ));
                }
                if ok {
                    if used != asked as i64 {
                        return self.fail(format!("{} of {} consumed {}", what, asked, used));
                    }
                    left -= asked;
                    reach -= asked;
                } else {
                    self.refused += 1;
                    if asked > left || asked > reach || self.whole {
                        // (bytewise sources may lose what they had when they run out)
                        if used != 0 {
                            return self.fail(format!("{} of {} failed but consumed {}", what, asked, used));
                        }
                    } else {
                        self.short += 1;
                        return false;
                    }
                }
            }
            if l.available() != left {
                return self.fail(format!("available() is {} instead of {}", l.available(), left));
            }
            if l.empty() != (left == 0) {
                return self.fail(format!("empty() is {} with {} left", l.empty(), left));
            }
            for k in [0, left, left.saturating_add(1), n] {
                if l.can_read(k).is_ok() != (k <= left) {
                    return self.fail(format!("can_read({}) is {} with {} left", k, l.can_read(k).is_ok(), left));
                }
            }
            if self.pos.get() - start > limit {
                return self.fail(format!("{} bytes consumed through a view of {}", self.pos.get() - start, limit));
            }
        }
        true
    }
}

pub fn c14(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    for i in 0..if c.interp { 2 } else { 25 } {
        let n = if i == 0 && c.index % 8 == 7 {
            c.n("large sources", 1);
            gen::big_len(&mut rng, 200_000)
        } else {
            gen::len(&mut rng, 3000)
        };
        let data = rng.bytes(n);
        let pos = Cell::new(0);
        let whole = rng.bool();
        let mut p = Probe { data: &data, pos: &pos, whole };
        let mut v = View {
            data: &data, pos: &pos, whole, log: vec![], bad: None, ops: 0, refused: 0, nested: 0,
            goto_end: 0, short: 0, deepest: 0,
        };
        for _ in 0..4 {
            if !v.level(&mut rng, &mut p, usize::MAX, 1) {
                break;
            }
        }
        c.n("operations on views", v.ops);
        c.n("refused operations", v.refused);
        c.n("nested views", v.nested);
        c.n("goto_end calls", v.goto_end);
        c.max("view nesting", v.deepest);
        c.case(fnv(v.log.join(";").as_bytes()));
        let log = v.log.join(", ");
        c.sample(|| format!("source of {} bytes: {}", n, log));
        if let Some(m) = v.bad {
            return Err(format!("source of {} bytes: {}", n, m));
        }
    }
    // the value of a tag, bounded only by the size given for it
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    for _ in 0..if c.interp { 1 } else { 4 } {
        let n = if rng.bool() { gen::leaf(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 200) };
        let kind = reg.kind_of(n.id);
        if n.id < 16 || matches!(kind, Some(Kind::ILInt) | Some(Kind::SILInt) | Some(Kind::PBlob) | Some(Kind::PRec) | Some(Kind::PNest)) {
            continue;
        }
        let v = value_bytes(&n);
        let mut all = v.clone();
        all.extend(rng.bytes(40));
        let size = if rng.one_in(4) { v.len() + rng.us(30) } else { rng.us(v.len() + 1) };
        let mut b = ilint(n.id);
        enc_ilint(size as u64, &mut b);
        b.extend_from_slice(&all[..size]);
        let want = dec_all(&reg, &b).map(|d| d.node);
        let pos = Cell::new(0);
        let mut p = Probe { data: &all, pos: &pos, whole: rng.bool() };
        let mut t = f.create_tag(n.id).expect("the factory knows the id");
        let r = t.deserialize_value(&f, size, &mut p);
        ck!(pos.get() <= size, "a value of {} takes {} bytes where its size is {}: {}", n.brief(), pos.get(), size, hex(&b));
        match (&want, r) {
            (Ok(m), Ok(())) => ck!(observe(t.as_ref()) == *m && pos.get() == size, "the first {} bytes of {} are {}, not {}", size, hex(&all), observe(t.as_ref()).brief(), m.brief()),
            (Err(_), Err(_)) => {}
            (Err(_), Ok(())) => return Err(format!("the first {} bytes of {} are accepted as {}, {} of them taken", size, hex(&all), observe(t.as_ref()).brief(), pos.get())),
            (Ok(m), Err(e)) => return Err(format!("the first {} bytes of {} are refused with {:?}, they are {}", size, hex(&all), e, m.brief())),
        }
        c.n("values bounded by their size", 1);
    }
    // other kinds of source, checked by what is delivered
    let n = if c.index % 32 == 31 { gen::big_len(&mut rng, 100_000) + 2 } else { gen::len(&mut rng, 2000) + 2 };
    let data = rng.bytes(n);
    let k = rng.us(SOURCES);
    let limit = rng.us(n);
    let mut r2 = rng.fork();
    let mut bad = None;
    with_source(k, &data, &mut rng, &mut |r| {
        let mut l = LimitedReader::new(r, limit);
        let mut p = 0;
        for _ in 0..20 {
            let ask = count_near(&mut r2, limit - p, 7).min(n + 4000);
            let mut b = vec![0; ask];
            let (ok, gave) = match r2.below(3) {
                0 => (l.read_all(&mut b).is_ok(), true),
                1 => (l.skip(ask).is_ok(), false),
                _ => (l.skip_u64(ask as u64).is_ok(), false),
            };
            if ok != (ask <= limit - p) || (ok && gave && b != data[p..p + ask]) {
                bad = Some(format!("request of {} at {} of a view of {} on {}: {}", ask, p, limit, source_name(k), ok));
                return;
            }
            if ok {
                p += ask;
            }
            if l.available() != limit - p {
                bad = Some(format!("available() is {} instead of {} on {}", l.available(), limit - p, source_name(k)));
                return;
            }
        }
        let rest = l.goto_end();
        if rest.is_err() || l.available() != 0 || l.read().is_ok() {
            bad = Some(format!("goto_end() on {}: {:?}", source_name(k), rest));
            return;
        }
        let mut b = [0];
        if r.read_all(&mut b).is_err() || b[0] != data[limit] {
            bad = Some(format!("after the view of {} on {} comes {}", limit, source_name(k), b[0]));
        }
    });
    c.n("views of other sources", 1);
    if let Some(m) = bad {
        return Err(m);
    }
    // messages: nothing nested reads past the end of what encloses it
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    for _ in 0..8 {
        let n = gen::small_tree(&mut rng, &cfg, 500);
        let mut b = if rng.one_in(6) { bytes_of(&n) } else { gen::tweaked(&mut rng, &n) };
        let (id, hs) = match dec_ilint(&b) {
            Ok(x) => x,
            Err(_) => continue,
        };
        if id <= 15 {
            continue;
        }
        let (sz, ss) = match dec_ilint(&b[hs..]) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let end = hs + ss + (sz.min(1 << 40) as usize);
        // what follows would make good sense to a reader that went on
        let tail = bytes_of(&gen::small_tree(&mut rng, &cfg, 200));
        for _ in 0..3 {
            b.extend_from_slice(&tail);
        }
        b.resize(b.len() + 40, 0);
        let want = dec_node(&reg, &b, false, 0).map(|d| (d.node, d.used));
        let pos = Cell::new(0);
        let whole = rng.bool();
        let mut p = Probe { data: &b, pos: &pos, whole };
        let got = f.deserialize(&mut p);
        ck!(pos.get() <= end, "{}: the decoder consumed {} bytes; the tag ends at {}", hex(&b), pos.get(), end);
        match (&want, &got) {
            (Ok((n, used)), Ok(t)) => {
                ck!(observe(t.as_ref()) == *n, "{} decodes as {} instead of {}", hex(&b), observe(t.as_ref()).brief(), n.brief());
                ck!(pos.get() == *used, "{}: position {} after a tag that ends at {}", hex(&b), pos.get(), used);
                c.n("consistent parents", 1);
            }
            (Err(e), Err(_)) => {
                c.n("inconsistent parents refused", 1);
                if *e == Bad::Overrun {
                    c.n("overruns refused", 1);
                }
            }
            (Err(e), Ok(t)) => return Err(format!("{} is accepted as {}: {:?}", hex(&b), observe(t.as_ref()).brief(), e)),
            (Ok((n, _)), Err(e)) => return Err(format!("{} ({}) is refused: {:?}", hex(&b), n.brief(), e)),
        }
        c.case(fnv(&b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

/// A MemoryReader that leaves everything it can to the trait.
struct Own {
    data: Vec<u8>,
    off: usize,
}

impl MemoryReader for Own {
    fn len(&self) -> usize {
        self.data.len()
    }
    fn offset(&self) -> usize {
        self.off
    }
    fn set_offset(&mut self, o: usize) {
        self.off = o.min(self.data.len());
    }
}

impl Reader for Own {
    fn read(&mut self) -> std::result::Result<u8, IE> {
        self.assert_can_read(1)?;
        self.off += 1;
        Ok(self.data[self.off - 1])
    }
    fn read_all(&mut self, b: &mut [u8]) -> std::result::Result<(), IE> {
        self.assert_can_read(b.len())?;
        b.copy_from_slice(&self.data[self.off..self.off + b.len()]);
        self.off += b.len();
        Ok(())
    }
    fn skip(&mut self, n: usize) -> std::result::Result<(), IE> {
        self.assert_can_read(n)?;
        self.off += n;
        Ok(())
    }
}

fn cursor_history<M: MemoryReader>(c: &mut Ctx, rng: &mut Rng, name: &str, data: &[u8], m: &mut M, can: &dyn Fn(&M, usize) -> std::result::Result<(), IE>) -> R {
    let mut p = 0;
    let mut log = String::new();
    let steps = rng.range(5, 60);
    for _ in 0..steps {
        let left = data.len() - p;
        let n = count_near(rng, left, 4);
        // errors: end of data when nothing is left, insufficient data otherwise
        let judge = |what: &str, n: usize, r: &std::result::Result<(), IE>| -> std::result::Result<bool, String> {
            let end = n > 0 && left == 0;
            let ok = n <= left;
            let right = match r {
                Ok(()) => ok,
                Err(IE::EndOfData) => end,
                Err(IE::UnableToReadData) => !end && !ok,
                Err(_) => false,
            };
            if !right {
                return Err(format!("{}: {} of {} with {} of {} left: {:?} ({})", name, what, n, left, data.len(), r, log));
            }
            Ok(ok)
        };
        let mut moved = 0;
        match rng.below(8) {
            0 | 1 => {
                let x = m.read();
                if let Ok(b) = &x {
                    ck!(left > 0 && *b == data[p], "{}: read() gave {} at {} of {}", name, b, p, data.len());
                }
                if judge("read", 1, &x.map(|_| ()))? {
                    moved = 1
                }
                log.push_str(" read");
            }
            2 | 3 => {
                let n = n.min(data.len() + 40);
                let mut b = vec![0x3c; n];
                let x = m.read_all(&mut b);
                if judge("read_all", n, &x)? {
                    ck!(b == data[p..p + n], "{}: read_all({}) at {} gave other bytes", name, n, p);
                    moved = n
                }
                log.push_str(&format!(" read_all({})", n));
            }
            4 => {
                let x = m.skip(n);
                if judge("skip", n, &x)? {
                    moved = n
                }
                log.push_str(&format!(" skip({})", n));
            }
            5 => {
                let x = m.skip_u64(n as u64);
                if judge("skip_u64", n, &x)? {
                    moved = n
                }
                log.push_str(&format!(" skip_u64({})", n));
            }
            6 => {
                let to = match rng.below(5) {
                    0 => 0,
                    1 => data.len(),
                    2 => data.len().wrapping_add(1 + rng.us(9)),
                    3 => *rng.pick(&[usize::MAX, usize::MAX / 2]),
                    _ => rng.us(data.len() + 1),
                };
                m.set_offset(to);
                p = to.min(data.len());
                log.push_str(&format!(" set_offset({})", to));
            }
            _ => {
                judge("can_read", n, &can(m, n))?;
                judge("assert_can_read", n, &m.assert_can_read(n))?;
            }
        }
        p += moved;
        c.n("cursor operations", 1);
        ck!(m.offset() == p, "{}: offset {} instead of {} ({})", name, m.offset(), p, log);
        ck!(m.len() == data.len(), "{}: len {} instead of {} ({})", name, m.len(), data.len(), log);
        ck!(m.available() == data.len() - p, "{}: available {} instead of {} ({})", name, m.available(), data.len() - p, log);
        ck!(m.is_empty() == data.is_empty(), "{}: is_empty {} with {} bytes", name, m.is_empty(), data.len());
    }
    c.case(mix(fnv(log.as_bytes()) ^ fnv(data)));
    c.sample(|| format!("{} of {} bytes:{}", name, data.len(), log));
    c.n(&format!("histories on {}", name), 1);
    Ok(())
}

pub fn c19(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    for _ in 0..if c.interp { 1 } else { 12 } {
        let n = match rng.below(5) {
            0 => 0,
            1 => 1,
            2 => rng.us(8),
            3 if rng.one_in(40) => {
                c.n("large sources", 1);
                gen::big_len(&mut rng, 200_000)
            }
            _ => gen::len(&mut rng, 2000),
        };
        let data = rng.bytes(n);
        let mut r = ByteArrayReader::new(&data);
        ck!(r.offset() == 0, "a new reader starts at {}", r.offset());
        cursor_history(c, &mut rng, "slice reader", &data, &mut r, &|r, n| r.can_read(n))?;
        ck!(r.as_slice() == data.as_slice(), "as_slice() differs from the data");
        let mut r = VecReader::new(&data);
        ck!(r.offset() == 0, "a new reader starts at {}", r.offset());
        cursor_history(c, &mut rng, "vector reader", &data, &mut r, &|r, n| r.can_read(n))?;
        ck!(r.as_slice() == data.as_slice() && r.vec() == &data, "as_slice()/vec() differ from the data");
        let mut r = Own { data: data.clone(), off: 0 };
        cursor_history(c, &mut rng, "custom memory reader", &data, &mut r, &|r, n| r.assert_can_read(n))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

struct Buf {
    b: Vec<u8>,
    off: usize,
    ro: bool,
    fixed: bool,
}

impl Buf {
    fn write(&mut self, x: &[u8]) -> bool {
        if self.ro || (self.fixed && x.len() > self.b.len() - self.off) {
            return false;
        }
        for v in x {
            if self.off < self.b.len() {
                self.b[self.off] = *v;
            } else {
                self.b.push(*v);
            }
            self.off += 1;
        }
        true
    }
}

trait Mem: Writer {
    fn off(&self) -> usize;
    fn to(&mut self, o: usize);
    fn ro(&mut self, _r: bool) {}
    /// checks everything else that can be asked
    fn look(&self, m: &Buf, content: bool) -> R;
}

macro_rules! vec_mem {
    ($t:ty) => {
        impl<'a> Mem for $t {
            fn off(&self) -> usize {
                self.get_offset()
            }
            fn to(&mut self, o: usize) {
                self.set_offset(o)
            }
            fn ro(&mut self, r: bool) {
                self.set_read_only(r)
            }
            fn look(&self, m: &Buf, content: bool) -> R {
                ck!(self.is_read_only() == m.ro, "is_read_only() is {}", self.is_read_only());
                ck!(self.can_write().is_ok() == !m.ro, "can_write() is {:?} with read_only {}", self.can_write(), m.ro);
                ck!(self.vec().len() == m.b.len(), "{} bytes instead of {}", self.vec().len(), m.b.len());
                if content {
                    ck!(self.as_slice() == m.b.as_slice(), "content: {}", diff(&m.b, self.as_slice()));
                    ck!(self.vec() == &m.b, "vec() differs from as_slice()");
                }
                Ok(())
            }
        }
    };
}
vec_mem!(VecWriter);
vec_mem!(BorrowedVecWriter<'a>);

impl<'a> Mem for ByteArrayWriter<'a> {
    fn off(&self) -> usize {
        self.get_offset()
    }
    fn to(&mut self, o: usize) {
        self.set_offset(o)
    }
    fn look(&self, m: &Buf, _: bool) -> R {
        ck!(self.available() == m.b.len() - m.off, "available() is {} instead of {}", self.available(), m.b.len() - m.off);
        Ok(())
    }
}

fn writer_history<W: Mem>(c: &mut Ctx, rng: &mut Rng, name: &str, w: &mut W, m: &mut Buf, extra: &mut dyn FnMut(&W, &Buf) -> R) -> R {
    let mut log = String::new();
    // now and then everything is larger than any buffer or growth step
    let big = rng.one_in(12) && !c.interp;
    let steps = if big { rng.range(3, 12) } else { rng.range(4, 50) };
    let mut h = 0;
    for s in 0..steps {
        match rng.below(10) {
            0 | 1 => {
                let v = rng.u64() as u8;
                let ok = if rng.bool() { w.write(v) } else { w.as_writer().write(v) };
                log.push_str(" write");
                let want = m.write(&[v]);
                refused(c, name, "write", 1, &ok, want, &log)?;
            }
            2 | 3 | 4 | 5 => {
                let left = m.b.len() - m.off;
                let n = match rng.below(6) {
                    0 => left,
                    1 => left + 1 + rng.us(4),
                    2 => left.saturating_sub(1),
                    3 => 0,
                    4 => gen::len(rng, if big { 12_000 } else { 400 }),
                    _ if big => rng.us(6000),
                    _ => rng.us(8),
                };
                let x = rng.bytes(n);
                let ok = if rng.bool() { w.write_all(&x) } else { w.as_writer().write_all(&x) };
                log.push_str(&format!(" write_all({})", n));
                if m.off < m.b.len() && m.off + n > m.b.len() && !m.fixed {
                    c.n("writes across the end", 1);
                }
                let want = m.write(&x);
                // an empty write to a read-only buffer may go either way
                if !(n == 0 && m.ro) {
                    refused(c, name, "write_all", n, &ok, want, &log)?;
                }
            }
            6 | 7 => {
                let to = match rng.below(5) {
                    0 => 0,
                    1 => m.b.len(),
                    2 => m.b.len() + 1 + rng.us(50),
                    3 => usize::MAX,
                    _ => rng.us(m.b.len() + 1),
                };
                w.to(to);
                m.off = to.min(m.b.len());
                log.push_str(&format!(" set_offset({})", to));
                c.n("repositionings", 1);
            }
            8 if !m.fixed => {
                let r = rng.one_in(3);
                w.ro(r);
                m.ro = r;
                log.push_str(&format!(" set_read_only({})", r));
            }
            _ => {}
        }
        h = mix(h ^ m.off as u64 ^ ((m.b.len() as u64) << 20) ^ (s << 50));
        c.n("writer operations", 1);
        ck!(w.off() == m.off, "{}: offset {} instead of {} after{}", name, w.off(), m.off, log);
        w.look(m, m.b.len() < 600 || s + 1 == steps).map_err(|e| format!("{}: {} after{}", name, e, log))?;
        extra(w, m).map_err(|e| format!("{}: {} after{}", name, e, log))?;
    }
    c.case(mix(h ^ fnv(log.as_bytes())));
    c.sample(|| format!("{}:{}", name, log));
    c.n(&format!("histories on {}", name), 1);
    Ok(())
}

fn refused(c: &mut Ctx, name: &str, what: &str, n: usize, r: &std::result::Result<(), IE>, want: bool, log: &str) -> R {
    ck!(r.is_ok() == want, "{}: {} of {} bytes: {:?} ({})", name, what, n, r, log);
    if let Err(e) = r {
        c.n("refused writes", 1);
        ck!(matches!(e, IE::UnableToWriteData), "{}: {} of {} bytes refused with {:?}", name, what, n, e);
    }
    Ok(())
}

pub fn c20(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    for _ in 0..if c.interp { 1 } else { 10 } {
        // growable
        let mut w = match rng.below(3) {
            0 => VecWriter::new(),
            1 => VecWriter::default(),
            _ => VecWriter::with_capacity(rng.us(300)),
        };
        let mut m = Buf { b: vec![], off: 0, ro: false, fixed: false };
        w.look(&m, true)?;
        writer_history(c, &mut rng, "growable writer", &mut w, &mut m, &mut |_, _| Ok(()))?;
        let v: Vec<u8> = w.into();
        ck!(v == m.b, "the vector taken from the writer differs: {}", diff(&m.b, &v));
        // borrowed
        let n = if rng.one_in(4) {
            0
        } else if rng.one_in(60) && !c.interp {
            c.n("large buffers", 1);
            gen::big_len(&mut rng, 140_000)
        } else if rng.one_in(12) {
            gen::len(&mut rng, 12_000)
        } else {
            gen::len(&mut rng, 500)
        };
        let init = rng.bytes(n);
        let mut v = init.clone();
        let at = match rng.below(4) {
            0 => 0,
            1 => n,
            2 => n + 1 + rng.us(20),
            _ => rng.us(n + 1),
        };
        let start = at.min(n);
        let mut m = Buf { b: init.clone(), off: start, ro: false, fixed: false };
        {
            let mut w = if at == 0 && rng.bool() { BorrowedVecWriter::new(&mut v) } else { BorrowedVecWriter::with_offset(&mut v, at) };
            ck!(w.get_offset() == start, "a writer opened at {} of {} starts at {}", at, n, w.get_offset());
            ck!(w.bytes_written() == 0, "a new writer has written {}", w.bytes_written());
            w.look(&m, true)?;
            writer_history(c, &mut rng, "borrowed writer", &mut w, &mut m, &mut |w, m| {
                let got = w.bytes_written();
                if m.off >= start {
                    ck!(got == m.off - start, "bytes_written() is {} at {} from {}", got, m.off, start);
                }
                Ok(())
            })?;
        }
        ck!(v == m.b, "the vector behind the writer differs: {}", diff(&m.b, &v));
        // fixed, in the middle of something larger
        let n = if rng.one_in(5) { 0 } else { gen::len(&mut rng, 300) };
        let mut whole = rng.bytes(n + 64);
        let frame = whole.clone();
        let mut m = Buf { b: frame[32..32 + n].to_vec(), off: 0, ro: false, fixed: true };
        {
            let mut w = ByteArrayWriter::new(&mut whole[32..32 + n]);
            ck!(w.get_offset() == 0 && w.available() == n, "a new writer starts at {}", w.get_offset());
            writer_history(c, &mut rng, "fixed writer", &mut w, &mut m, &mut |_, _| Ok(()))?;
        }
        ck!(whole[32..32 + n] == m.b[..], "the array behind the writer differs: {}", diff(&m.b, &whole[32..32 + n]));
        ck!(whole[..32] == frame[..32] && whole[32 + n..] == frame[32 + n..], "bytes outside the array were touched");
        // after every kind of failure, the array is as it was: whole histories of one step
        let mut a = rng.bytes(6);
        let was = a.clone();
        let k = rng.us(7);
        let over = 7 - k + rng.us(300);
        let x = rng.bytes(over);
        {
            let mut w = ByteArrayWriter::new(&mut a);
            w.set_offset(k);
            ck!(w.write_all(&x).is_err(), "{} bytes fit into {}", over, 6 - k);
            ck!(w.get_offset() == k, "a refused write moved the offset to {}", w.get_offset());
        }
        ck!(a == was, "a refused write changed {} to {}", hex(&was), hex(&a));
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn verdict(f: &dyn ILTagFactory, k: usize, b: &[u8], rng: &mut Rng) -> (std::result::Result<Node, String>, Option<usize>) {
    let (d, p) = decode_on(f, k, b, rng);
    (d.map(|t| observe(t.as_ref())).map_err(|e| format!("{:?}", e)), p)
}

/// What a scan of the data finds: the tags, and whether it ended in an error.
fn scan_all(r: &mut dyn Reader, most: usize) -> (Vec<(u64, u64, u64, u64)>, bool) {
    let mut d = Dyn(r);
    let mut s = RawTagScanner::new(&mut d);
    let mut v = vec![];
    loop {
        match s.next_tag() {
            Ok(Some(t)) => v.push((t.id(), t.offset(), t.value_offset() - t.offset(), t.value_size())),
            Ok(None) => return (v, false),
            Err(_) => return (v, true),
        }
        if v.len() >= most {
            return (v, false);
        }
    }
}

pub fn c21(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    for i in 0..if c.interp { 1 } else { 6 } {
        let mut b = if i == 0 && c.index % 4 == 3 && !c.interp {
            // values larger than the fragments that streams come in
            let size = gen::piece_len(&mut rng, 19_000);
            let n = gen::bulk(&mut rng, size, &cfg);
            c.n("large values", 1);
            bytes_of(&n)
        } else if i % 2 == 0 {
            let n = if rng.one_in(5) { gen::tree(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 700) };
            note(c, &n);
            bytes_of(&n)
        } else {
            gen::hostile(&mut rng, &cfg)
        };
        if rng.one_in(3) {
            b.extend_from_slice(&gen::soup(&mut rng));
        }
        if b.len() > 20_000 {
            continue;
        }
        c.case(fnv(&b));
        c.sample(|| format!("{} from every kind of source", hex(&b)));
        let (want, wp) = verdict(&f, 0, &b, &mut rng);
        for k in 1..SOURCES {
            let (got, gp) = verdict(&f, k, &b, &mut rng);
            match (&want, &got) {
                (Ok(x), Ok(y)) => {
                    ck!(x == y, "{}: {} from {} but {} from a slice", hex(&b), y.brief(), source_name(k), x.brief());
                    ck!(gp == wp, "{}: {:?} bytes consumed from {}, {:?} from a slice", hex(&b), gp, source_name(k), wp);
                    c.n("same value", 1);
                }
                (Err(_), Err(_)) => c.n("same refusal", 1),
                _ => {
                    return Err(format!(
                        "{}: {} from {} but {} from a slice", hex(&b),
                        got.map(|n| n.brief()).unwrap_or_else(|e| e), source_name(k),
                        want.map(|n| n.brief()).unwrap_or_else(|e| e)
                    ))
                }
            }
        }
        // an existing tag
        if let Ok((id, _)) = dec_ilint(&b) {
            let mut first: Option<Option<Node>> = None;
            for k in [0, 1 + rng.us(SOURCES - 1), 1 + rng.us(SOURCES - 1)] {
                if let Some(mut t) = f.create_tag(id) {
                    let (r, _) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                    let o = r.ok().map(|_| observe(t.as_ref()));
                    match &first {
                        None => first = Some(o),
                        Some(w) => ck!(*w == o, "{} decoded into a tag from {} gives {:?}", hex(&b), source_name(k), o.map(|n| n.brief())),
                    }
                }
            }
        }
        // scanning
        let mut seq = b.clone();
        for _ in 0..rng.us(4) {
            seq.extend_from_slice(&bytes_of(&gen::small_tree(&mut rng, &cfg, 200)));
        }
        let mut want: Option<(Vec<(u64, u64, u64, u64)>, bool)> = None;
        for k in 0..SOURCES {
            let (got, _) = with_source(k, &seq, &mut rng, &mut |r| scan_all(r, 50));
            match &want {
                None => want = Some(got),
                Some(w) => ck!(*w == got, "scanning {} finds {:?} on {} and {:?} on a slice", hex(&seq), got, source_name(k), w),
            }
            c.n("scans compared", 1);
        }
    }
    // position and length queries
    for _ in 0..if c.interp { 2 } else { 12 } {
        let n = gen::len(&mut rng, 1500);
        let data = rng.bytes(n);
        match rng.below(4) {
            0 => sized(c, &mut rng, "cursor", &data, &mut std::io::Cursor::new(data.clone()))?,
            1 => {
                let m = 1 + rng.us(20);
                let r2 = rng.fork();
                sized(c, &mut rng, "fragmenting stream", &data, &mut SeekFrag::new(&data, m, 3, r2))?
            }
            2 => {
                let cap = 1 + rng.us(40);
                sized(c, &mut rng, "buffered stream", &data, &mut std::io::BufReader::with_capacity(cap, std::io::Cursor::new(data.clone())))?
            }
            _ if !c.interp => {
                let mut f = scratch_file(&data)?;
                sized(c, &mut rng, "file", &data, &mut f)?
            }
            _ => {}
        }
    }
    // lengths no memory holds
    let len = gen::u64_any(&mut rng);
    let at = match rng.below(4) {
        0 => 0,
        1 => len,
        2 => gen::u64_any(&mut rng),
        _ => len / 2,
    };
    let mut s = Sparse { len, pieces: vec![], pos: at };
    let l = SizedSeek::len(&mut s).map_err(|e| format!("{:?}", e))?;
    let o = SizedSeek::offset(&mut s).map_err(|e| format!("{:?}", e))?;
    let a = SizedSeek::available(&mut s).map_err(|e| format!("{:?}", e))?;
    let e = SizedSeek::is_empty(&mut s).map_err(|e| format!("{:?}", e))?;
    ck!(
        l == len && o == at && a == len.saturating_sub(at) && e == (len == 0) && s.pos == at,
        "a stream of {} at {}: len {}, offset {}, available {}, is_empty {}, then at {}", len, at, l, o, a, e, s.pos
    );
    Ok(())
}

/// An unlinked file holding the data.
pub fn scratch_file(data: &[u8]) -> std::result::Result<std::fs::File, String> {
    use std::io::{Seek, Write};
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let p = std::env::temp_dir().join(format!("il2mon-{}-{}", std::process::id(), n));
    let e = |e: std::io::Error| format!("scratch file: {}", e);
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create_new(true).open(&p).map_err(e)?;
    let _ = std::fs::remove_file(&p);
    Write::write_all(&mut f, data).map_err(e)?;
    f.seek(std::io::SeekFrom::Start(0)).map_err(e)?;
    Ok(f)
}

fn sized<S: std::io::Read + std::io::Seek>(c: &mut Ctx, rng: &mut Rng, name: &str, data: &[u8], s: &mut S) -> R {
    let mut p: u64 = 0;
    let n = data.len() as u64;
    for _ in 0..20 {
        let e = |e: IE| format!("{}: {:?}", name, e);
        match rng.below(7) {
            0 => {
                let l = SizedSeek::len(s).map_err(e)?;
                ck!(l == n, "{} of {} bytes: len() is {}", name, n, l)
            }
            1 => {
                let o = SizedSeek::offset(s).map_err(e)?;
                ck!(o == p, "{}: offset() is {} at {}", name, o, p)
            }
            2 => {
                let a = SizedSeek::available(s).map_err(e)?;
                ck!(a == n.saturating_sub(p), "{} of {} bytes: available() is {} at {}", name, n, a, p)
            }
            3 => {
                let a = SizedSeek::is_empty(s).map_err(e)?;
                ck!(a == (n == 0), "{} of {} bytes: is_empty() is {} at {}", name, n, a, p)
            }
            4 => {
                p = match rng.below(4) {
                    0 => n,
                    1 => n + 1 + rng.below(9),
                    _ => rng.below(n + 1),
                };
                s.seek(std::io::SeekFrom::Start(p)).map_err(|e| format!("{}", e))?;
            }
            _ if p < n => {
                let k = 1 + rng.below((n - p).min(40)) as usize;
                let mut b = vec![0; k];
                Reader::read_all(s, &mut b).map_err(e)?;
                ck!(b == data[p as usize..p as usize + k], "{}: {} bytes at {} are wrong after a query", name, k, p);
                p += k as u64;
            }
            _ => {}
        }
        let q = s.stream_position().map_err(|e| format!("{}", e))?;
        ck!(q == p, "{}: a query moved the position from {} to {}", name, p, q);
        c.n("position queries", 1);
    }
    c.n(&format!("queries on {}", name), 1);
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Clean,
    Bad,
    /// an ILInt tag whose value overflows: complete as a location, not as a tag
    Open,
}

/// Where the tags are, by the format.
fn ref_scan(b: &[u8]) -> (Vec<(u64, u64, u64, u64)>, End) {
    let mut v = vec![];
    let mut p = 0usize;
    while p < b.len() {
        let (id, n) = match dec_ilint(&b[p..]) {
            Ok(x) => x,
            Err(_) => return (v, End::Bad),
        };
        let mut h = n;
        let sz;
        if id <= 15 {
            match implicit_size(id) {
                Some(s) => sz = s as u64,
                None if id == 10 || id == 14 => match dec_ilint(&b[p + n..]) {
                    Ok((_, k)) => sz = k as u64,
                    Err(Bad::Overflow) => return (v, End::Open),
                    Err(_) => return (v, End::Bad),
                },
                None => return (v, End::Bad),
            }
        } else {
            match dec_ilint(&b[p + n..]) {
                Ok((s, k)) => {
                    h += k;
                    sz = s
                }
                Err(_) => return (v, End::Bad),
            }
        }
        if sz > (b.len() - p - h.min(b.len() - p)) as u64 || p + h > b.len() {
            return (v, End::Bad);
        }
        v.push((id, p as u64, h as u64, sz));
        p += h + sz as usize;
    }
    (v, End::Clean)
}

fn check_offset(t: &RawTagOffset, w: &(u64, u64, u64, u64)) -> R {
    let (id, off, h, sz) = *w;
    let end = off + h + sz;
    ck!(
        t.id() == id && t.offset() == off && t.size() == h + sz && t.value_offset() == off + h && t.value_size() == sz
            && t.next_tag_offset() == end && t.value_start() == (off + h) as usize && t.value_end() == end as usize
            && t.tag_start() == off as usize && t.tag_end() == end as usize,
        "id {} offset {} size {} value {}+{} next {} (slices {}..{} and {}..{}) instead of id {} offset {} header {} value {}",
        t.id(), t.offset(), t.size(), t.value_offset(), t.value_size(), t.next_tag_offset(), t.tag_start(), t.tag_end(),
        t.value_start(), t.value_end(), id, off, h, sz
    );
    Ok(())
}

fn scan_check(c: &mut Ctx, rng: &mut Rng, b: &[u8], k: usize) -> R {
    let (want, end) = ref_scan(b);
    let by_id = rng.one_in(3);
    let mut bad: Option<String> = None;
    let mut seen = 0;
    with_source(k, b, rng, &mut |r| {
        let mut d = Dyn(r);
        let mut s = RawTagScanner::new(&mut d);
        for (i, w) in want.iter().enumerate() {
            let t = if by_id && i % 2 == 1 { s.next_tag_if_id(w.0) } else { s.next_tag() };
            match t {
                Ok(Some(t)) => {
                    if let Err(m) = check_offset(&t, w) {
                        bad = Some(format!("tag {}: {}", i, m));
                        return;
                    }
                    if t.tag_slice(b) != &b[w.1 as usize..(w.1 + w.2 + w.3) as usize]
                        || t.value_slice(b) != &b[(w.1 + w.2) as usize..(w.1 + w.2 + w.3) as usize]
                    {
                        bad = Some(format!("the slices of tag {} are wrong", i));
                        return;
                    }
                    seen += 1;
                }
                x => {
                    bad = Some(format!("tag {} (id {}, at {}) is reported as {:?}", i, w.0, w.1, x));
                    return;
                }
            }
        }
        match end {
            End::Clean => {
                if let Ok(Some(t)) = s.next_tag() {
                    bad = Some(format!("after the last tag comes {:?}", t));
                }
            }
            End::Bad => match s.next_tag() {
                Err(_) => {}
                x => bad = Some(format!("a damaged tag after {} good ones is reported as {:?}", want.len(), x)),
            },
            End::Open => {}
        }
    });
    if let Some(m) = bad {
        return Err(format!("scanning {} on {}: {}", hex(b), source_name(k), m));
    }
    c.n("tags located", seen);
    match end {
        End::Bad => c.n("damaged sequences", 1),
        End::Clean => c.n("whole sequences", 1),
        End::Open => {}
    }
    Ok(())
}

pub fn c24(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    // sequences of tags
    let mut b = vec![];
    let mut nodes = vec![];
    for _ in 0..rng.range(0, 7) {
        let n = match rng.below(4) {
            0 => gen::leaf(&mut rng, &cfg),
            1 if c.index % 64 == 63 && nodes.is_empty() => {
                c.n("large tags", 1);
                let n = gen::big_len(&mut rng, if c.index % 256 == 255 { 2_100_000 } else { 140_000 });
                Node { id: gen::custom_id(&mut rng), v: Val::Raw(rng.bytes(n)) }
            }
            1 => Node { id: gen::custom_id(&mut rng), v: Val::Raw(gen::bytes(&mut rng, 800)) },
            2 if rng.one_in(4) => gen::tree(&mut rng, &cfg),
            _ => gen::small_tree(&mut rng, &cfg, 300),
        };
        let e = if rng.one_in(4) {
            c.n("padded tags", 1);
            gen::padded(&mut rng, &n)
        } else {
            bytes_of(&n)
        };
        b.extend_from_slice(&e);
        nodes.push((n, e));
    }
    c.case(fnv(&b));
    c.sample(|| format!("{} tags in {}", nodes.len(), hex(&b)));
    let (want, end) = ref_scan(&b);
    ck!(want.len() == nodes.len() && end == End::Clean, "the reference scanner is confused by {}", hex(&b));
    for k in 0..if c.interp { 2 } else { SOURCES } {
        scan_check(c, &mut rng, &b, k)?;
    }
    // the slices decode to the same tags
    for (i, w) in want.iter().enumerate() {
        let t = RawTagOffset::new(w.0, w.1, w.2, w.3);
        let s = t.tag_slice(&b);
        ck!(s == nodes[i].1.as_slice(), "slice {} is {} instead of {}", i, hex(s), hex(&nodes[i].1));
        if reg.kind_of(w.0).is_some() && nodes[i].0.depth() < gen::DEEP && nodes[i].0.kind() == reg.kind_of(w.0).unwrap() {
            let d = f.from_bytes(s).map_err(|e| format!("slice {} does not decode: {:?}", hex(s), e))?;
            ck!(observe(d.as_ref()) == nodes[i].0, "slice {} decodes as {}", hex(s), observe(d.as_ref()).brief());
            c.n("slices decoded", 1);
        }
        let wrong = if rng.bool() { w.0 ^ 1 } else { gen::u64_any(&mut rng) };
        if wrong != w.0 {
            let mut r = ByteArrayReader::new(s);
            let x = RawTagScanner::new(&mut r).next_tag_if_id(wrong);
            ck!(matches!(x, Err(TErr::UnexpectedTagType)), "asking for id {} where there is {} gives {:?}", wrong, w.0, x);
            c.n("id mismatches", 1);
        }
    }
    // a tag of another id is passed over like any other
    if !want.is_empty() {
        let k = rng.us(SOURCES);
        let mut bad = None;
        let mut r2 = rng.fork();
        let mut missed = 0;
        with_source(k, &b, &mut rng, &mut |r| {
            let mut d = Dyn(r);
            let mut s = RawTagScanner::new(&mut d);
            for (i, w) in want.iter().enumerate() {
                let r = match r2.below(3) {
                    0 => s.next_tag(),
                    1 => s.next_tag_if_id(w.0),
                    _ => {
                        let wrong = if r2.bool() { w.0 ^ (1 << r2.below(64)) } else { gen::u64_any(&mut r2) };
                        if wrong == w.0 {
                            s.next_tag()
                        } else {
                            let x = s.next_tag_if_id(wrong);
                            if !matches!(x, Err(TErr::UnexpectedTagType)) {
                                bad = Some(format!("asking for id {} where there is {} gives {:?}", wrong, w.0, x));
                                return;
                            }
                            missed += 1;
                            continue;
                        }
                    }
                };
                let right = match &r {
                    Ok(Some(t)) => check_offset(t, w).err(),
                    x => Some(format!("{:?}", x)),
                };
                if let Some(m) = right {
                    bad = Some(format!("tag {} of {} on {}, after {} of other ids: {}", i, want.len(), source_name(k), missed, m));
                    return;
                }
            }
        });
        if let Some(m) = bad {
            return Err(format!("{}: {}", m, hex(&b)));
        }
        c.n("tags of other ids passed over", missed);
    }
    // the scanner assumes offset 0 where the reader is
    if !b.is_empty() {
        let k = rng.us(want.len());
        let mut r = ByteArrayReader::new(&b);
        r.set_offset(want[k].1 as usize);
        let t = RawTagScanner::new(&mut r).next_tag().map_err(|e| format!("{:?}", e))?.ok_or("no tag")?;
        check_offset(&t, &(want[k].0, 0, want[k].2, want[k].3))?;
        ck!(r.offset() as u64 == want[k].1 + want[k].2 + want[k].3, "the reader is at {} after tag {}", r.offset(), k);
    }
    // damage
    for _ in 0..4 {
        let mut x = b.clone();
        match rng.below(5) {
            0 => {
                let k = rng.us(x.len() + 1);
                x.truncate(k)
            }
            1 => x.extend_from_slice(&gen::soup(&mut rng)),
            2 => {
                let mut t = vec![];
                enc_ilint(gen::u64_any(&mut rng), &mut t);
                enc_ilint(gen::u64_any(&mut rng), &mut t);
                x.extend_from_slice(&t)
            }
            3 => x.extend_from_slice(&[*rng.pick(&[255u8, 15, 16, 248, 10, 14]), 255, 255, 255, 255, 255, 255, 255, *rng.pick(&[255u8, 8, 7]), 9][..1 + rng.us(10)]),
            _ => gen::mutate(&mut rng, &mut x, &b),
        }
        c.case(fnv(&x));
        let s = rng.us(SOURCES);
        for k in [0, s] {
            scan_check(c, &mut rng, &x, k)?;
        }
    }
    // children mapped to the space of the parent
    let mut kids = vec![];
    for _ in 0..rng.range(1, 4) {
        kids.push(gen::small_tree(&mut rng, &cfg, 200));
    }
    let inner = Node { id: 22, v: Val::Seq(kids) };
    let outer = Node { id: 22, v: Val::Seq(vec![Node { id: 3, v: Val::U8(1) }, inner, Node { id: 0, v: Val::Null }]) };
    let pre = gen::bytes(&mut rng, 300);
    let mut whole = bytes_of(&Node { id: 16, v: Val::Bytes(pre) });
    whole.extend_from_slice(&bytes_of(&outer));
    let find = |b: &[u8]| -> std::result::Result<Vec<RawTagOffset>, String> {
        let mut v = vec![];
        let mut r = ByteArrayReader::new(b);
        let mut s = RawTagScanner::new(&mut r);
        let n = ref_scan(b).0.len();
        for _ in 0..n {
            v.push(s.next_tag().map_err(|e| format!("{:?}", e))?.ok_or("no tag")?);
        }
        Ok(v)
    };
    let top = find(&whole)?;
    let parent = top[1];
    let level1 = find(parent.value_slice(&whole))?;
    for ch in &level1 {
        let m = ch.map_to_parent_space(&parent).map_err(|e| format!("{:?} is refused in {:?}: {:?}", ch, parent, e))?;
        ck!(m.tag_slice(&whole) == ch.tag_slice(parent.value_slice(&whole)), "{:?} mapped into {:?} is {:?}", ch, parent, m);
        ck!(m.value_slice(&whole) == ch.value_slice(parent.value_slice(&whole)), "{:?} mapped into {:?} is {:?}", ch, parent, m);
        ck!(m.id() == ch.id() && m.size() == ch.size() && m.value_size() == ch.value_size(), "{:?} mapped into {:?} is {:?}", ch, parent, m);
        c.n("mapped locations", 1);
    }
    let mid = level1[1];
    for ch in find(mid.value_slice(parent.value_slice(&whole)))? {
        let mm = mid.map_to_parent_space(&parent).map_err(|e| format!("{:?}", e))?;
        let m = ch.map_to_parent_space(&mm).map_err(|e| format!("{:?}", e))?;
        let m2 = ch.map_to_parent_space(&mid).and_then(|x| x.map_to_parent_space(&parent)).map_err(|e| format!("{:?}", e))?;
        ck!(m == m2, "mapping twice gives {:?} or {:?}", m, m2);
        ck!(m.tag_slice(&whole) == ch.tag_slice(mm.value_slice(&whole)), "{:?} mapped into {:?} is {:?}", ch, mm, m);
        c.n("mapped locations", 1);
    }
    // children that do not fit
    let wide = rng.bool();
    let pv = if wide { gen::u64_any(&mut rng) >> 2 } else { rng.below(600) };
    let p = RawTagOffset::new(22, rng.below(1 << 40), 2 + rng.below(16), pv);
    let off = rng.below(pv + 3);
    let h = 1 + rng.below(18);
    let sz = match rng.below(3) {
        0 => pv.saturating_sub(off + h),
        1 => pv.saturating_sub(off + h) + 1,
        _ if wide => rng.below(pv + 700),
        _ => rng.below(700),
    };
    let ch = RawTagOffset::new(16, off, h, sz);
    check_offset(&ch, &(16, off, h, sz))?;
    let m = ch.map_to_parent_space(&p);
    if off + h + sz > pv {
        ck!(matches!(m, Err(TErr::CorruptedData)), "{:?} does not fit in {:?} but maps to {:?}", ch, p, m);
        c.n("unfit children", 1);
    } else {
        let m = m.map_err(|e| format!("{:?} in {:?}: {:?}", ch, p, e))?;
        check_offset(&m, &(16, p.value_offset() + off, h, sz))?;
    }
    let d = RawTagOffset::default();
    ck!(d.id() == 0 && d.offset() == 0 && d.size() == 0 && d.next_tag_offset() == 0, "the default location is {:?}", d);
    // sizes that no memory holds
    for _ in 0..3 {
        virtual_scan(c, &mut rng)?;
    }
    Ok(())
}

/// A sequence of enormous tags on virtual sources.
fn virtual_scan(c: &mut Ctx, rng: &mut Rng) -> R {
    let mut pieces = vec![];
    let mut want: Vec<(u64, u64, u64, u64)> = vec![];
    let mut p: u64 = 0;
    let mut bad = false;
    for _ in 0..rng.range(1, 6) {
        let id = gen::custom_id(rng);
        let sz = match rng.below(6) {
            0 => rng.u64() >> rng.range(1, 30),
            1 => gen::u64_any(rng),
            2 => (u64::MAX - p).saturating_sub(rng.below(40)),
            3 => u64::MAX - rng.below(40),
            4 => *rng.pick(&[1u64 << 32, (1 << 32) - 1, 1 << 31, 1 << 63, (1 << 63) - 1, MAX_TAG, MAX_TAG + 1]),
            _ => rng.below(2000),
        };
        let mut h = ilint(id);
        enc_ilint(sz, &mut h);
        let hl = h.len() as u64;
        if p.checked_add(hl).is_none() {
            break;
        }
        pieces.push((p, h));
        match p.checked_add(hl).and_then(|x| x.checked_add(sz)) {
            Some(n) => {
                want.push((id, p, hl, sz));
                p = n;
            }
            None => {
                bad = true;
                break;
            }
        }
    }
    let mut len = if bad { u64::MAX } else { p };
    // or the last one is cut
    if !bad && rng.one_in(3) {
        if let Some(w) = want.last().cloned() {
            if w.3 > 0 {
                len = match rng.below(3) {
                    0 => p - 1,
                    1 => w.1 + w.2,
                    _ => p - 1 - rng.below(w.3),
                };
                want.pop();
                bad = true;
            }
        }
    }
    let s = Sparse { len, pieces, pos: 0 };
    c.case(mix(p ^ mix(len)));
    let show = format!("{:?} (of {} bytes)", s.pieces.iter().map(|(p, b)| format!("{} at {}", hex(b), p)).collect::<Vec<_>>(), len);
    for kind in 0..4 {
        let name = ["virtual seekable stream", "virtual custom reader", "virtual limited view", "virtual dyn reader"][kind];
        let mut a = s.clone();
        let mut b = SparseReader(s.clone());
        let mut go = |r: &mut dyn Reader| -> R {
            let mut d = Dyn(r);
            let mut sc = RawTagScanner::new(&mut d);
            for (i, w) in want.iter().enumerate() {
                match sc.next_tag() {
                    Ok(Some(t)) => check_offset(&t, w).map_err(|m| format!("{}: tag {} of {}: {}", name, i, show, m))?,
                    x => return Err(format!("{}: tag {} of {} is reported as {:?}", name, i, show, x)),
                }
                c.n("virtual tags located", 1);
            }
            if bad {
                let x = sc.next_tag();
                ck!(x.is_err(), "{}: after {} tags of {}: {:?}", name, want.len(), show, x);
                c.n("virtual damage", 1);
            }
            Ok(())
        };
        match kind {
            0 => {
                go(&mut a)?;
                if !bad {
                    ck!(a.pos == p, "{}: the position is {} instead of {} after {}", name, a.pos, p, show)
                }
            }
            1 => go(&mut b)?,
            2 => go(&mut LimitedReader::new(&mut b, len as usize))?,
            _ => go(&mut Dyn(&mut a))?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

fn skip_count(rng: &mut Rng, left: u64) -> u64 {
    match rng.below(12) {
        0 => 0,
        1 => left,
        2 => left.wrapping_add(1),
        3 => left.saturating_sub(1),
        4 => *rng.pick(&[511, 512, 513, 1023, 1024, 1025, 1536, 2048]),
        5 => u64::MAX - rng.below(3),
        6 => (u64::MAX - left).wrapping_add(rng.below(4)).wrapping_sub(2),
        7 => gen::u64_any(rng),
        8 => 1 + rng.below(9),
        9 if left > 5000 => {
            let n = if left < 1 << 40 { rng.below(left + 2) } else { rng.below(1 << 20) };
            *rng.pick(&[n, n & !511, n & !4095, n & !511 | 1])
        }
        _ => rng.below(left.min(5000) + 2),
    }
}

/// One history of skips and reads; `solid`: a failed skip leaves the position alone.
/// Skips on a seekable stream that was positioned at or beyond its end by its user.
fn skip_beyond<S: std::io::Read + std::io::Seek>(c: &mut Ctx, rng: &mut Rng, what: &str, len: u64, s: &mut S) -> R {
    for _ in 0..4 {
        let at = len + rng.below(4) * rng.below(100);
        for n in [0u64, 1, 1 + rng.below(700), skip_count(rng, 0)] {
            s.seek(std::io::SeekFrom::Start(at)).map_err(|e| format!("{:?}", e))?;
            let one = rng.bool();
            let x = if one { Reader::skip(s, n as usize) } else { Reader::skip_u64(s, n) };
            let p = s.stream_position().map_err(|e| format!("{:?}", e))?;
            ck!(x.is_ok() == (n == 0), "{} of {} bytes at {}: skipping {} gives {:?}", what, len, at, n, x);
            ck!(p == at, "{} of {} bytes is at {} after skipping {} from {} ({:?})", what, len, p, n, at, x);
            c.n("skips from beyond the end", 1);
        }
    }
    Ok(())
}

fn skip_history(c: &mut Ctx, rng: &mut Rng, name: &str, data: &[u8], solid: bool, r: &mut dyn Reader, pos: &mut dyn FnMut(&mut dyn Reader) -> Option<u64>) -> R {
    let mut p = 0usize;
    let mut log = String::new();
    for _ in 0..rng.range(2, 16) {
        let left = (data.len() - p) as u64;
        if rng.one_in(3) {
            let n = rng.us((left as usize).min(30) + 1);
            let mut b = vec![0; n];
            let x = r.read_all(&mut b);
            ck!(x.is_ok() && b == data[p..p + n], "{}: {} bytes at {} of {} read as {} ({:?}) after{}", name, n, p, data.len(), hex(&b), x, log);
            p += n;
            log.push_str(&format!(" read({})", n));
            continue;
        }
        let mut n = skip_count(rng, left);
        if !solid && n > left && rng.bool() {
            n = left;
        }
        let x = if rng.bool() {
            log.push_str(&format!(" skip({})", n));
            r.skip(n as usize)
        } else {
            log.push_str(&format!(" skip_u64({})", n));
            r.skip_u64(n)
        };
        c.n("skips", 1);
        ck!(x.is_ok() == (n <= left), "{}: skipping {} with {} of {} left: {:?} after{}", name, n, left, data.len(), x, log);
        if x.is_ok() {
            p += n as usize;
        } else {
            c.n("refused skips", 1);
            if !solid {
                // (the rest of the data may be gone)
                break;
            }
            c.n("positions kept", 1);
        }
        if let Some(q) = pos(r) {
            ck!(q == p as u64, "{}: at {} instead of {} of {} after{}", name, q, p, data.len(), log);
        }
        if p < data.len() && rng.bool() {
            let b = r.read();
            ck!(matches!(&b, Ok(v) if *v == data[p]), "{}: the byte at {} of {} is {:?} instead of {} after{}", name, p, data.len(), b, data[p], log);
            p += 1;
        } else if p == data.len() && rng.one_in(3) {
            ck!(r.read().is_err(), "{}: a byte after all {} after{}", name, data.len(), log);
            if !solid {
                break;
            }
        }
    }
    c.case(mix(fnv(log.as_bytes()) ^ fnv(name.as_bytes()) ^ data.len() as u64));
    c.sample(|| format!("{} of {} bytes:{}", name, data.len(), log));
    c.n(&format!("on {}", name), 1);
    Ok(())
}

pub fn c25(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let none = &mut |_: &mut dyn Reader| None;
    for _ in 0..if c.interp { 1 } else { 5 } {
        let n = match rng.below(4) {
            0 => rng.us(6),
            1 => *rng.pick(&[511, 512, 513, 1024, 1025]),
            2 if c.index % 16 == 15 => {
                c.n("large sources", 1);
                gen::big_len(&mut rng, 300_000)
            }
            _ => gen::len(&mut rng, 3000),
        };
        let data = rng.bytes(n);
        let d = &data[..];
        skip_history(c, &mut rng, "slice reader", d, true, &mut ByteArrayReader::new(d), none)?;
        skip_history(c, &mut rng, "vector reader", d, true, &mut VecReader::new(d), none)?;
        skip_history(c, &mut rng, "custom memory reader", d, true, &mut Own { data: data.clone(), off: 0 }, none)?;
        skip_history(c, &mut rng, "cursor", d, true, &mut std::io::Cursor::new(d), none)?;
        let r2 = rng.fork();
        skip_history(c, &mut rng, "seekable fragments", d, true, &mut SeekFrag::new(d, 9, 3, r2), none)?;
        let cap = 1 + rng.us(60);
        skip_history(c, &mut rng, "buffered seekable", d, true, &mut std::io::BufReader::with_capacity(cap, std::io::Cursor::new(d)), none)?;
        if rng.one_in(4) && !c.interp {
            skip_history(c, &mut rng, "file", d, true, &mut scratch_file(d)?, none)?;
        }
        skip_beyond(c, &mut rng, "a cursor", n as u64, &mut std::io::Cursor::new(d))?;
        let r2 = rng.fork();
        skip_beyond(c, &mut rng, "a stream of fragments", n as u64, &mut SeekFrag::new(d, 9, 3, r2))?;
        skip_beyond(c, &mut rng, "a buffered stream", n as u64, &mut std::io::BufReader::with_capacity(cap, std::io::Cursor::new(d)))?;
        if rng.one_in(8) && !c.interp {
            skip_beyond(c, &mut rng, "a file", n as u64, &mut scratch_file(d)?)?;
        }
        skip_history(c, &mut rng, "read-only custom reader", d, false, &mut PlainReader::new(d), none)?;
        skip_history(c, &mut rng, "custom reader without skip", d, false, &mut NoSkip { data: d, pos: 0 }, none)?;
        let m = rng.us(20);
        let r2 = rng.fork();
        let mut fr = Frag::new(d, m, 4, r2);
        skip_history(c, &mut rng, "plain stream", d, false, &mut ReadReader::new(&mut fr), none)?;
        // limited views: of the whole, of a part; refusal by the view keeps everything in place
        let extra = rng.us(30);
        let mut more = data.clone();
        more.extend_from_slice(&rng.bytes(extra));
        let mut inner = ByteArrayReader::new(&more);
        skip_history(c, &mut rng, "limited view of memory", d, true, &mut LimitedReader::new(&mut inner, n), none)?;
        let mut inner = ByteArrayReader::new(d);
        skip_history(c, &mut rng, "limited view larger than memory", d, true, &mut LimitedReader::new(&mut inner, n + 1 + extra), none)?;
        let mut inner = std::io::Cursor::new(&more[..]);
        skip_history(c, &mut rng, "limited view of a seekable stream", d, true, &mut LimitedReader::new(&mut inner, n), none)?;
        let mut fr = Frag::new(&more, 7, 5, rng.fork());
        let mut inner = ReadReader::new(&mut fr);
        skip_history(c, &mut rng, "limited view of a plain stream", d, true, &mut LimitedReader::new(&mut inner, n), none)?;
        let mut inner = PlainReader::new(&more);
        skip_history(c, &mut rng, "limited view of a custom reader", d, true, &mut LimitedReader::new(&mut inner, n), none)?;
    }
    // position of streams, at and after the end, and lengths up to 2^64-1
    for _ in 0..20 {
        let len = match rng.below(4) {
            0 => rng.below(20),
            1 => u64::MAX - rng.below(3),
            _ => gen::u64_any(&mut rng),
        };
        let at = match rng.below(6) {
            0 => 0,
            1 => len,
            2 => len.saturating_add(1 + rng.below(10)),
            3 => gen::u64_any(&mut rng),
            _ => rng.below(len.saturating_add(1).max(1)),
        };
        let left = len.saturating_sub(at);
        let n = skip_count(&mut rng, left);
        let mut s = Sparse { len, pieces: vec![], pos: at };
        let one = rng.bool();
        let x = if one { Reader::skip(&mut s, n as usize) } else { Reader::skip_u64(&mut s, n) };
        c.n("virtual skips", 1);
        c.case(mix(len ^ mix(at ^ mix(n))));
        ck!(x.is_ok() == (n <= left), "a stream of {} bytes at {}: skipping {} gives {:?}", len, at, n, x);
        let to = if x.is_ok() { at + n } else { at };
        ck!(s.pos == to, "a stream of {} bytes at {} is at {} after skipping {} ({:?})", len, at, s.pos, n, x);
        // memory cursors too
        if len < 2000 && at < 1 << 40 {
            let data = vec![1u8; len as usize];
            let mut s = std::io::Cursor::new(&data[..]);
            s.set_position(at);
            let x = if one { Reader::skip(&mut s, n as usize) } else { Reader::skip_u64(&mut s, n) };
            ck!(x.is_ok() == (n <= left), "a cursor of {} bytes at {}: skipping {} gives {:?}", len, at, n, x);
            ck!(s.position() == to, "a cursor of {} bytes at {} is at {} after skipping {} ({:?})", len, at, s.position(), n, x);
        }
        // a limited view over the virtual data
        let pos = at.min(len);
        let mut r = SparseReader(Sparse { len, pieces: vec![], pos });
        let limit = gen::u64_any(&mut rng);
        let mut l = LimitedReader::new(&mut r, limit as usize);
        let x = if one { l.skip(n as usize) } else { l.skip_u64(n) };
        let ok = n <= limit && n <= len - pos;
        let a = l.available() as u64;
        ck!(x.is_ok() == ok, "a view of {} on {} bytes at {}: skipping {} gives {:?}", limit, len, pos, n, x);
        ck!(a == if ok { limit - n } else { limit }, "a view of {}: {} available after skipping {} ({:?})", limit, a, n, x);
        ck!(r.0.pos == if ok { pos + n } else { pos }, "a view of {}: at {} from {} after skipping {} ({:?})", limit, r.0.pos, pos, n, x);
    }
    Ok(())
}
