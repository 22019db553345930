//! Between the reference model and the library's public API: builds library tags from model
//! nodes (by varied routes), reads library tags back into model nodes, makes factories.
use crate::model::*;
use crate::rng::Rng;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub type Tag = Box<dyn ILTag>;
pub type TErr = il2_iltags::tags::ErrorKind;
pub type IErr = il2_iltags::io::ErrorKind;

// ---------------------------------------------------------------- custom payloads

/// How a misbehaving payload deals with the bytes of its value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Greed {
    Exact,
    /// leaves this many bytes unread
    Under(usize),
    /// asks for this many bytes more and reports the error
    Over(usize),
    /// tries every way of getting more bytes, ignores the errors, then behaves
    Sneaky(usize),
}

thread_local! {
    /// behaviour of PBlob on the current thread
    pub static GREED: std::cell::Cell<Greed> = const { std::cell::Cell::new(Greed::Exact) };
    /// bytes a payload received beyond its declared value (must stay 0)
    pub static STOLEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// last value_size a payload was given
    pub static GIVEN: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// Calls into payload code, used as a measure of work.
pub static SIZE_CALLS: AtomicU64 = AtomicU64::new(0);
pub static SER_CALLS: AtomicU64 = AtomicU64::new(0);
pub static DES_CALLS: AtomicU64 = AtomicU64::new(0);
pub static WORK_BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);

/// Payloads use the library themselves while the library is at work on them.
pub static REENTER: AtomicBool = AtomicBool::new(false);
/// How often they did.
pub static REENTRIES: AtomicU64 = AtomicU64::new(0);

/// A payload's own use of the library, in the middle of another operation.
fn busy() {
    REENTRIES.fetch_add(1, Relaxed);
    let a = ILByteArrayTag::with_value(&[1, 2, 3, 4]);
    let b = ILRawTag::with_value(100, b"payload");
    if il2_iltags::tags::util::iltag_are_equal(&a, &b) || !il2_iltags::tags::util::iltag_are_equal(&b, &b) {
        panic!("a comparison by a payload went wrong");
    }
    match il2_iltags::tags::util::iltag_clone(&a) {
        Ok(k) if k.to_bytes().ok() == Some(vec![16, 4, 1, 2, 3, 4]) => {}
        _ => panic!("a clone by a payload went wrong"),
    }
}

fn work(c: &AtomicU64) {
    let n = c.fetch_add(1, Relaxed) + 1;
    if n > WORK_BUDGET.load(Relaxed) {
        WORK_BUDGET.store(u64::MAX, Relaxed);
        panic!("work budget exceeded: {} calls into one payload", n);
    }
}

#[derive(Default, Debug)]
pub struct PBlob {
    pub data: Vec<u8>,
}

impl ILTagPayload for PBlob {
    fn serialized_size(&self) -> usize {
        work(&SIZE_CALLS);
        self.data.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        work(&SER_CALLS);
        writer.serialize_bytes(&self.data)
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> Result<()> {
        work(&DES_CALLS);
        GIVEN.with(|g| g.set(Some(size)));
        match GREED.with(|g| g.get()) {
            Greed::Exact => {
                self.data = reader.deserialize_bytes(size)?;
            }
            Greed::Under(k) => {
                self.data = reader.deserialize_bytes(size.saturating_sub(k))?;
            }
            Greed::Over(k) => {
                let d = reader.deserialize_bytes(size + k)?;
                STOLEN.with(|s| s.set(s.get() + k as u64));
                self.data = d;
            }
            Greed::Sneaky(k) => {
                let stolen = |n: u64| STOLEN.with(|s| s.set(s.get() + n));
                let mut big = vec![0u8; size + k];
                if reader.read_all(&mut big).is_ok() {
                    stolen(k as u64);
                }
                if reader.skip(size + k).is_ok() {
                    stolen(k as u64);
                }
                if reader.skip_u64((size + k) as u64).is_ok() {
                    stolen(k as u64);
                }
                if reader.skip_u64(u64::MAX).is_ok() {
                    stolen(1);
                }
                self.data = reader.deserialize_bytes(size)?;
                if reader.read().is_ok() {
                    stolen(1);
                }
                if reader.skip(1).is_ok() {
                    stolen(1);
                }
                let mut one = [0u8; 1];
                if reader.read_all(&mut one).is_ok() {
                    stolen(1);
                }
                if reader.skip_u64(k as u64).is_ok() {
                    stolen(k as u64);
                }
            }
        }
        Ok(())
    }
}

#[derive(Default, Debug)]
pub struct PRec {
    pub a: u16,
    pub b: u64,
    pub rest: Vec<u8>,
}

impl ILTagPayload for PRec {
    fn serialized_size(&self) -> usize {
        work(&SIZE_CALLS);
        2 + il2_iltags::ilint::encoded_size(self.b) + self.rest.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        work(&SER_CALLS);
        writer.serialize_value(self.a)?;
        writer.serialize_ilint(self.b)?;
        writer.serialize_bytes(&self.rest)
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> Result<()> {
        work(&DES_CALLS);
        GIVEN.with(|g| g.set(Some(size)));
        self.a = reader.deserialize_value()?;
        self.b = reader.deserialize_ilint()?;
        let used = 2 + il2_iltags::ilint::encoded_size(self.b);
        if used > size {
            return Err(TErr::CorruptedData);
        }
        reader.deserialize_bytes_into_vec(size - used, &mut self.rest)
    }
}

#[derive(Default)]
pub struct PNest {
    pub inner: Option<Tag>,
}

impl ILTagPayload for PNest {
    fn serialized_size(&self) -> usize {
        work(&SIZE_CALLS);
        self.inner.as_ref().map(|t| t.size() as usize).unwrap_or(0)
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        work(&SER_CALLS);
        match &self.inner {
            Some(t) if REENTER.load(Relaxed) => {
                busy();
                let b = t.to_bytes()?;
                writer.serialize_bytes(&b)
            }
            Some(t) => t.serialize(writer),
            None => Ok(()),
        }
    }
    fn deserialize(&mut self, f: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> Result<()> {
        work(&DES_CALLS);
        GIVEN.with(|g| g.set(Some(size)));
        self.inner = None;
        if REENTER.load(Relaxed) {
            let b = reader.deserialize_bytes(size)?;
            busy();
            self.inner = Some(f.from_bytes(&b)?);
            return Ok(());
        }
        self.inner = Some(f.deserialize(reader)?);
        Ok(())
    }
}

pub type BlobTag = ILGenericPayloadTag<PBlob>;
pub type RecTag = ILGenericPayloadTag<PRec>;
pub type NestTag = ILGenericPayloadTag<PNest>;

// ---------------------------------------------------------------- type table

/// Runs $m!(Kind, Type) for every tag type.
#[macro_export]
macro_rules! for_all_types {
    ($m:ident) => {
        $m!(Null, ILNullTag);
        $m!(Bool, ILBoolTag);
        $m!(I8, ILInt8Tag);
        $m!(U8, ILUInt8Tag);
        $m!(I16, ILInt16Tag);
        $m!(U16, ILUInt16Tag);
        $m!(I32, ILInt32Tag);
        $m!(U32, ILUInt32Tag);
        $m!(I64, ILInt64Tag);
        $m!(U64, ILUInt64Tag);
        $m!(F32, ILBin32Tag);
        $m!(F64, ILBin64Tag);
        $m!(B128, ILBin128Tag);
        $m!(ILInt, ILILInt64Tag);
        $m!(SILInt, ILSignedILInt64Tag);
        $m!(Bytes, ILByteArrayTag);
        $m!(Str, ILStringTag);
        $m!(BigInt, ILBigIntTag);
        $m!(BigDec, ILBigDecTag);
        $m!(IntArr, ILILIntArrayTag);
        $m!(TagArr, ILTagArrayTag);
        $m!(Seq, ILTagSeqTag);
        $m!(Range, ILRangeTag);
        $m!(Version, ILVersionTag);
        $m!(Oid, ILOIDTag);
        $m!(Dict, ILDictTag);
        $m!(StrDict, ILStrDictTag);
        $m!(Raw, ILRawTag);
        $m!(PBlob, BlobTag);
        $m!(PRec, RecTag);
        $m!(PNest, NestTag);
    };
}

/// Creator for a kind (any id; Bytes and BigInt exist only with their own).
pub fn creator(k: Kind, rng: &mut Rng, id: u64) -> Box<dyn ILTagCreator> {
    let plain = std_id(k) == Some(id) && rng.bool();
    macro_rules! c {
        ($t:ty) => {
            if plain {
                Box::new(ILDefaultTagCreator::<$t>::new()) as Box<dyn ILTagCreator>
            } else {
                Box::new(ILDefaultWithIdTagCreator::<$t>::default()) as Box<dyn ILTagCreator>
            }
        };
    }
    match k {
        Kind::Null => c!(ILNullTag),
        Kind::Bool => c!(ILBoolTag),
        Kind::I8 => c!(ILInt8Tag),
        Kind::U8 => c!(ILUInt8Tag),
        Kind::I16 => c!(ILInt16Tag),
        Kind::U16 => c!(ILUInt16Tag),
        Kind::I32 => c!(ILInt32Tag),
        Kind::U32 => c!(ILUInt32Tag),
        Kind::I64 => c!(ILInt64Tag),
        Kind::U64 => c!(ILUInt64Tag),
        Kind::F32 => c!(ILBin32Tag),
        Kind::F64 => c!(ILBin64Tag),
        Kind::B128 => c!(ILBin128Tag),
        Kind::ILInt => c!(ILILInt64Tag),
        Kind::SILInt => c!(ILSignedILInt64Tag),
        Kind::Bytes => Box::new(ILDefaultTagCreator::<ILByteArrayTag>::default()),
        Kind::BigInt => Box::new(ILDefaultTagCreator::<ILBigIntTag>::default()),
        Kind::Str => c!(ILStringTag),
        Kind::BigDec => c!(ILBigDecTag),
        Kind::IntArr => c!(ILILIntArrayTag),
        Kind::TagArr => c!(ILTagArrayTag),
        Kind::Seq => c!(ILTagSeqTag),
        Kind::Range => c!(ILRangeTag),
        Kind::Version => c!(ILVersionTag),
        Kind::Oid => c!(ILOIDTag),
        Kind::Dict => c!(ILDictTag),
        Kind::StrDict => c!(ILStrDictTag),
        Kind::Raw => Box::new(ILDefaultWithIdTagCreator::<ILRawTag>::new()),
        Kind::PBlob => Box::new(ILDefaultWithIdTagCreator::<BlobTag>::new()),
        Kind::PRec => Box::new(ILDefaultWithIdTagCreator::<RecTag>::new()),
        Kind::PNest => Box::new(ILDefaultWithIdTagCreator::<NestTag>::new()),
    }
}

/// A fresh library factory holding the registrations of the model registry.
pub fn factory(r: &Registry, rng: &mut Rng) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(r.strict);
    for (id, k) in STD_KINDS {
        match r.kinds.get(&id) {
            Some(x) if *x == k => {}
            Some(x) => {
                f.engine().register(id, creator(*x, rng, id));
            }
            None => {
                f.engine().deregister(id);
            }
        }
    }
    for (id, k) in &r.kinds {
        if !STD_KINDS.iter().any(|(i, _)| i == id) {
            f.engine().register(*id, creator(*k, rng, *id));
        }
    }
    f
}

// ---------------------------------------------------------------- model -> library

pub fn build(n: &Node, rng: &mut Rng) -> Tag {
    let own = std_id(n.kind()) == Some(n.id);
    let route = rng.below(4);
    macro_rules! simple {
        ($t:ident, $v:expr) => {{
            let v = $v;
            if own && route == 0 {
                Box::new($t::with_value(v)) as Tag
            } else if own && route == 1 {
                let mut t = if rng.bool() { $t::new() } else { $t::default() };
                t.set_value(v);
                Box::new(t)
            } else if route == 2 {
                Box::new($t::with_id_value(n.id, v))
            } else {
                let mut t = if rng.bool() { $t::with_id(n.id) } else { <$t as DefaultWithId>::default_with_id(n.id) };
                t.set_value(v);
                Box::new(t)
            }
        }};
    }
    match &n.v {
        Val::Null => {
            if own && route == 0 {
                Box::new(ILNullTag::new())
            } else if own && route == 1 {
                Box::new(ILNullTag::default())
            } else {
                Box::new(ILNullTag::with_id(n.id))
            }
        }
        Val::Bool(v) => simple!(ILBoolTag, *v),
        Val::I8(v) => simple!(ILInt8Tag, *v),
        Val::U8(v) => simple!(ILUInt8Tag, *v),
        Val::I16(v) => simple!(ILInt16Tag, *v),
        Val::U16(v) => simple!(ILUInt16Tag, *v),
        Val::I32(v) => simple!(ILInt32Tag, *v),
        Val::U32(v) => simple!(ILUInt32Tag, *v),
        Val::I64(v) => simple!(ILInt64Tag, *v),
        Val::U64(v) => simple!(ILUInt64Tag, *v),
        Val::F32(v) => simple!(ILBin32Tag, f32::from_bits(*v)),
        Val::F64(v) => simple!(ILBin64Tag, f64::from_bits(*v)),
        Val::B128(v) => simple!(ILBin128Tag, v),
        Val::ILInt(v) => simple!(ILILInt64Tag, *v),
        Val::SILInt(v) => simple!(ILSignedILInt64Tag, *v),
        Val::Str(v) => {
            if route == 3 && rng.bool() {
                let mut t = ILStringTag::with_id(n.id);
                t.mut_value().push_str(v);
                Box::new(t)
            } else {
                simple!(ILStringTag, v)
            }
        }
        Val::Bytes(v) => match route {
            0 => Box::new(ILByteArrayTag::with_value(v)),
            1 => {
                let mut t = ILByteArrayTag::with_capacity(rng.us(100));
                t.mut_value().extend_from_slice(v);
                Box::new(t)
            }
            _ => {
                let mut t = ILByteArrayTag::new();
                *t.mut_value() = v.clone();
                Box::new(t)
            }
        },
        Val::BigInt(v) => {
            if route < 2 {
                Box::new(ILBigIntTag::with_value(v))
            } else {
                let mut t = if rng.bool() { ILBigIntTag::new() } else { ILBigIntTag::default() };
                t.mut_value().extend_from_slice(v);
                Box::new(t)
            }
        }
        Val::BigDec(s, v) => {
            if own && route == 0 {
                Box::new(ILBigDecTag::with_value(*s, v))
            } else if route == 1 {
                Box::new(ILBigDecTag::with_id_value(n.id, *s, v))
            } else {
                let mut t = ILBigDecTag::with_id(n.id);
                t.set_scale(*s);
                t.mut_value().extend_from_slice(v);
                Box::new(t)
            }
        }
        Val::IntArr(v) => {
            if route == 3 && rng.bool() {
                let mut t = ILILIntArrayTag::with_id(n.id);
                for x in v {
                    t.mut_value().push(*x)
                }
                Box::new(t)
            } else {
                simple!(ILILIntArrayTag, v.as_slice())
            }
        }
        Val::Oid(v) => {
            if route == 3 && rng.bool() {
                let mut t = ILOIDTag::with_id(n.id);
                *t.mut_value() = v.clone();
                Box::new(t)
            } else {
                simple!(ILOIDTag, v.as_slice())
            }
        }
        Val::TagArr(c) => {
            let mut t = if own && rng.bool() { ILTagArrayTag::new() } else { ILTagArrayTag::with_id(n.id) };
            for x in c {
                let k = build(x, rng);
                t.mut_value().push(k)
            }
            Box::new(t)
        }
        Val::Seq(c) => {
            let mut t = if own && rng.bool() { ILTagSeqTag::new() } else { ILTagSeqTag::with_id(n.id) };
            if rng.bool() {
                for x in c.iter() {
                    let k = build(x, rng);
                    t.mut_value().push(k)
                }
            } else {
                for x in c.iter().rev() {
                    let k = build(x, rng);
                    t.mut_value().insert(0, k)
                }
            }
            Box::new(t)
        }
        Val::Range(s, c) => {
            if own && route == 0 {
                Box::new(ILRangeTag::with_value(*s, *c))
            } else if route == 1 {
                Box::new(ILRangeTag::with_id_value(n.id, *s, *c))
            } else {
                let mut t = ILRangeTag::with_id(n.id);
                if rng.bool() {
                    t.set_value(*s, *c)
                } else {
                    t.set_start(*s);
                    t.set_count(*c);
                }
                Box::new(t)
            }
        }
        Val::Version(v) => {
            let (a, b, c, d) = (v[0], v[1], v[2], v[3]);
            if own && route == 0 {
                if rng.bool() {
                    Box::new(ILVersionTag::with_value(a, b, c, d))
                } else {
                    Box::new(ILVersionTag::with_value_from_slice(v))
                }
            } else if route == 1 {
                if rng.bool() {
                    Box::new(ILVersionTag::with_id_value(n.id, a, b, c, d))
                } else {
                    Box::new(ILVersionTag::with_id_value_from_slice(n.id, v))
                }
            } else {
                let mut t = ILVersionTag::with_id(n.id);
                match rng.below(3) {
                    0 => t.set_value(a, b, c, d),
                    1 => t.set_value_from_slice(v),
                    _ => {
                        t.set_build(d);
                        t.set_major(a);
                        t.set_revision(c);
                        t.set_minor(b);
                    }
                }
                Box::new(t)
            }
        }
        Val::Dict(m) => {
            let mut t = if own && rng.bool() { ILDictTag::new() } else { ILDictTag::with_id(n.id) };
            let mut e: Vec<_> = m.iter().collect();
            rng.shuffle(&mut e);
            for (k, x) in e {
                let x = build(x, rng);
                let k = std::str::from_utf8(k).unwrap();
                if rng.one_in(4) {
                    t.mut_value().insert(k.to_string(), x);
                } else {
                    t.insert(k, x);
                }
            }
            Box::new(t)
        }
        Val::StrDict(m) => {
            let mut t = if own && rng.bool() { ILStrDictTag::new() } else { ILStrDictTag::with_id(n.id) };
            let mut e: Vec<_> = m.iter().collect();
            rng.shuffle(&mut e);
            for (k, x) in e {
                let k = std::str::from_utf8(k).unwrap();
                if rng.one_in(4) {
                    t.mut_value().insert(k.to_string(), x.clone());
                } else {
                    t.insert(k, x);
                }
            }
            Box::new(t)
        }
        Val::Raw(v) => match route {
            0 => Box::new(ILRawTag::with_value(n.id, v)),
            1 => {
                let mut t = ILRawTag::with_capacity(n.id, rng.us(64));
                t.mut_value().extend_from_slice(v);
                Box::new(t)
            }
            _ => {
                let mut t = ILRawTag::new(n.id);
                t.set_value(v);
                Box::new(t)
            }
        },
        Val::PBlob(v) => {
            let mut t = BlobTag::new(n.id);
            if rng.bool() {
                t.mut_payload().data = v.clone();
            } else {
                t.data = v.clone();
            }
            Box::new(t)
        }
        Val::PRec(a, b, c) => {
            let mut t = <RecTag as DefaultWithId>::default_with_id(n.id);
            t.a = *a;
            t.mut_payload().b = *b;
            t.mut_payload().rest = c.clone();
            Box::new(t)
        }
        Val::PNest(x) => {
            let mut t = NestTag::new(n.id);
            t.inner = Some(build(x, rng));
            Box::new(t)
        }
    }
}

// ---------------------------------------------------------------- library -> model

/// Concrete kind of a library tag.
pub fn kind_of(t: &dyn ILTag) -> Option<Kind> {
    macro_rules! m {
        ($k:ident, $t:ty) => {
            if t.as_any().downcast_ref::<$t>().is_some() {
                return Some(Kind::$k);
            }
        };
    }
    for_all_types!(m);
    None
}

/// A text the library hands out: text in Rust is UTF-8, always.
pub fn text(s: &str) -> String {
    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
        panic!("a str that is not UTF-8 was handed out: {}", crate::ctx::hex(s.as_bytes()));
    }
    s.to_string()
}

pub fn observe(t: &dyn ILTag) -> Node {
    let a = t.as_any();
    let id = t.id();
    macro_rules! val {
        ($t:ty, $x:ident => $e:expr) => {
            if let Some($x) = a.downcast_ref::<$t>() {
                return Node { id, v: $e };
            }
        };
    }
    val!(ILNullTag, _x => Val::Null);
    val!(ILBoolTag, x => Val::Bool(x.value()));
    val!(ILInt8Tag, x => Val::I8(x.value()));
    val!(ILUInt8Tag, x => Val::U8(x.value()));
    val!(ILInt16Tag, x => Val::I16(x.value()));
    val!(ILUInt16Tag, x => Val::U16(x.value()));
    val!(ILInt32Tag, x => Val::I32(x.value()));
    val!(ILUInt32Tag, x => Val::U32(x.value()));
    val!(ILInt64Tag, x => Val::I64(x.value()));
    val!(ILUInt64Tag, x => Val::U64(x.value()));
    val!(ILBin32Tag, x => Val::F32(x.value().to_bits()));
    val!(ILBin64Tag, x => Val::F64(x.value().to_bits()));
    val!(ILBin128Tag, x => Val::B128(*x.value()));
    val!(ILILInt64Tag, x => Val::ILInt(x.value()));
    val!(ILSignedILInt64Tag, x => Val::SILInt(x.value()));
    val!(ILByteArrayTag, x => Val::Bytes(x.value().clone()));
    val!(ILStringTag, x => Val::Str(text(x.value())));
    val!(ILBigIntTag, x => Val::BigInt(x.value().clone()));
    val!(ILBigDecTag, x => Val::BigDec(x.scale(), x.value().clone()));
    val!(ILILIntArrayTag, x => Val::IntArr(x.value().clone()));
    val!(ILOIDTag, x => Val::Oid(x.value().clone()));
    val!(ILTagArrayTag, x => Val::TagArr(x.value().iter().map(|c| observe(c.as_ref())).collect()));
    val!(ILTagSeqTag, x => Val::Seq(x.value().iter().map(|c| observe(c.as_ref())).collect()));
    val!(ILRangeTag, x => Val::Range(x.start(), x.count()));
    val!(ILVersionTag, x => {
        let v = *x.value();
        if v != [x.major(), x.minor(), x.revision(), x.build()] {
            panic!("version accessors disagree with the value");
        }
        Val::Version(v)
    });
    val!(ILDictTag, x => {
        let m: std::collections::BTreeMap<_, _> = x.value().iter()
            .map(|(k, c)| (text(k).into_bytes(), observe(c.as_ref()))).collect();
        if x.len() != m.len() || x.is_empty() != m.is_empty() {
            panic!("dictionary length is inconsistent");
        }
        Val::Dict(m)
    });
    val!(ILStrDictTag, x => {
        let m: std::collections::BTreeMap<_, _> = x.value().iter()
            .map(|(k, c)| (text(k).into_bytes(), text(c))).collect();
        if x.len() != m.len() || x.is_empty() != m.is_empty() {
            panic!("dictionary length is inconsistent");
        }
        Val::StrDict(m)
    });
    val!(ILRawTag, x => Val::Raw(x.value().clone()));
    val!(BlobTag, x => Val::PBlob(x.payload().data.clone()));
    val!(RecTag, x => Val::PRec(x.a, x.b, x.rest.clone()));
    val!(NestTag, x => match &x.payload().inner {
        Some(t) => Val::PNest(Box::new(observe(t.as_ref()))),
        None => Val::PBlob(vec![]),
    });
    panic!("a tag of no known type (id {})", id);
}

/// Two observations, ignoring nothing.
pub fn same(a: &Node, b: &Node) -> bool {
    a == b
}

pub fn show(r: &std::result::Result<Node, TErr>) -> String {
    match r {
        Ok(n) => format!("Ok({})", n.brief()),
        Err(e) => format!("Err({:?})", e),
    }
}

/// Serialization through to_bytes(), as a case result.
pub fn ser(t: &dyn ILTag) -> std::result::Result<Vec<u8>, String> {
    t.to_bytes().map_err(|e| format!("to_bytes failed: {:?}", e))
}

// ---------------------------------------------------------------- decoding, by any route

pub type Dec = std::result::Result<Tag, TErr>;

/// Decodes from source kind k; gives the position reached too.
pub fn decode_on(f: &dyn ILTagFactory, k: usize, data: &[u8], rng: &mut Rng) -> (Dec, Option<usize>) {
    crate::iomon::with_source(k, data, rng, &mut |r| f.deserialize(r))
}

pub const ROUTES: usize = 2 + crate::iomon::SOURCES;

pub fn route_name(r: usize) -> String {
    match r {
        0 => "from_bytes".into(),
        1 => "deserialize_into".into(),
        r => format!("deserialize from {}", crate::iomon::source_name(r - 2)),
    }
}

/// Decodes a message that should be complete, by one of several routes; leftovers are refused as
/// from_bytes() does.
pub fn decode_by(f: &dyn ILTagFactory, route: usize, data: &[u8], rng: &mut Rng) -> Dec {
    match route {
        0 => f.from_bytes(data),
        1 => {
            let id = dec_ilint(data).map(|x| x.0).unwrap_or(0);
            match f.create_tag(id) {
                None => f.from_bytes(data),
                Some(mut t) => {
                    let (r, p) = crate::iomon::with_source(0, data, rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                    r?;
                    if p != Some(data.len()) {
                        return Err(TErr::CorruptedData);
                    }
                    Ok(t)
                }
            }
        }
        r => {
            let (t, p) = decode_on(f, r - 2, data, rng);
            let t = t?;
            if p != Some(data.len()) {
                return Err(TErr::CorruptedData);
            }
            Ok(t)
        }
    }
}

// ---------------------------------------------------------------- changing tags in place

/// Child number i of a library container, in the order of Node::children().
pub fn child_mut<'a>(n: &Node, t: &'a mut dyn ILTag, i: usize) -> &'a mut dyn ILTag {
    match &n.v {
        Val::TagArr(_) => t.as_mut_any().downcast_mut::<ILTagArrayTag>().expect("a tag array").mut_value()[i].as_mut(),
        Val::Seq(_) => t.as_mut_any().downcast_mut::<ILTagSeqTag>().expect("a tag sequence").mut_value()[i].as_mut(),
        Val::Dict(m) => {
            let k = m.keys().nth(i).unwrap();
            let k = std::str::from_utf8(k).unwrap();
            t.as_mut_any().downcast_mut::<ILDictTag>().expect("a dictionary").mut_value().get_mut(k).expect("the key").as_mut()
        }
        Val::PNest(_) => t.as_mut_any().downcast_mut::<NestTag>().expect("a nest tag").inner.as_mut().expect("its tag").as_mut(),
        _ => panic!("no children"),
    }
}

pub fn child<'a>(n: &Node, t: &'a dyn ILTag, i: usize) -> &'a dyn ILTag {
    match &n.v {
        Val::TagArr(_) => t.as_any().downcast_ref::<ILTagArrayTag>().expect("a tag array").value()[i].as_ref(),
        Val::Seq(_) => t.as_any().downcast_ref::<ILTagSeqTag>().expect("a tag sequence").value()[i].as_ref(),
        Val::Dict(m) => {
            let k = m.keys().nth(i).unwrap();
            let k = std::str::from_utf8(k).unwrap();
            t.as_any().downcast_ref::<ILDictTag>().expect("a dictionary").get(k).expect("the key")
        }
        Val::PNest(_) => t.as_any().downcast_ref::<NestTag>().expect("a nest tag").inner.as_ref().expect("its tag").as_ref(),
        _ => panic!("no children"),
    }
}

fn model_child_mut(n: &mut Node, i: usize) -> &mut Node {
    match &mut n.v {
        Val::TagArr(c) | Val::Seq(c) => &mut c[i],
        Val::Dict(m) => m.values_mut().nth(i).unwrap(),
        Val::PNest(x) => x,
        _ => panic!("no children"),
    }
}

/// Gives a leaf tag a new value through its setters, in the model as well.
pub fn set_leaf(rng: &mut Rng, n: &mut Node, t: &mut dyn ILTag, max: usize) {
    let mut v = if rng.one_in(3) {
        // almost what it holds
        let mut m = n.clone();
        crate::gen::nudge(rng, &mut m);
        m.v
    } else {
        crate::gen::leaf_val(rng, n.kind(), max)
    };
    let a = t.as_mut_any();
    macro_rules! get {
        ($t:ty) => {
            a.downcast_mut::<$t>().expect(stringify!($t))
        };
    }
    let route = rng.below(3);
    match &mut v {
        Val::Null => {}
        Val::Bool(x) => get!(ILBoolTag).set_value(*x),
        Val::I8(x) => get!(ILInt8Tag).set_value(*x),
        Val::U8(x) => get!(ILUInt8Tag).set_value(*x),
        Val::I16(x) => get!(ILInt16Tag).set_value(*x),
        Val::U16(x) => get!(ILUInt16Tag).set_value(*x),
        Val::I32(x) => get!(ILInt32Tag).set_value(*x),
        Val::U32(x) => get!(ILUInt32Tag).set_value(*x),
        Val::I64(x) => get!(ILInt64Tag).set_value(*x),
        Val::U64(x) => get!(ILUInt64Tag).set_value(*x),
        Val::F32(x) => get!(ILBin32Tag).set_value(f32::from_bits(*x)),
        Val::F64(x) => get!(ILBin64Tag).set_value(f64::from_bits(*x)),
        Val::B128(x) => get!(ILBin128Tag).set_value(x),
        Val::ILInt(x) => get!(ILILInt64Tag).set_value(*x),
        Val::SILInt(x) => get!(ILSignedILInt64Tag).set_value(*x),
        Val::Bytes(x) => edit(rng, route, x, get!(ILByteArrayTag).mut_value()),
        Val::BigInt(x) => edit(rng, route, x, get!(ILBigIntTag).mut_value()),
        Val::Raw(x) => {
            if route == 0 {
                get!(ILRawTag).set_value(x)
            } else {
                edit(rng, route, x, get!(ILRawTag).mut_value())
            }
        }
        Val::PBlob(x) => edit(rng, route, x, &mut get!(BlobTag).mut_payload().data),
        Val::Str(x) => {
            let t = get!(ILStringTag);
            match route {
                0 => t.set_value(x),
                1 => {
                    t.mut_value().push_str(x);
                    *x = t.mut_value().clone();
                    if let Val::Str(old) = &n.v {
                        assert!(x.starts_with(old.as_str()), "push_str did not append to the previous value");
                    }
                }
                _ => {
                    t.mut_value().clear();
                    t.mut_value().push_str(x);
                }
            }
        }
        Val::BigDec(s, x) => {
            let t = get!(ILBigDecTag);
            let (os, ov) = match &n.v {
                Val::BigDec(s, v) => (*s, v.clone()),
                _ => unreachable!(),
            };
            match route {
                0 => {
                    t.set_scale(*s);
                    *x = ov;
                }
                1 => {
                    *t.mut_value() = x.clone();
                    *s = os;
                }
                _ => {
                    *t.mut_value() = x.clone();
                    t.set_scale(*s);
                }
            }
        }
        Val::IntArr(x) => {
            let t = get!(ILILIntArrayTag);
            if route == 0 {
                t.set_value(x)
            } else {
                edit(rng, route, x, t.mut_value())
            }
        }
        Val::Oid(x) => {
            let t = get!(ILOIDTag);
            if route == 0 {
                t.set_value(x)
            } else {
                edit(rng, route, x, t.mut_value())
            }
        }
        Val::Range(s, c) => {
            let t = get!(ILRangeTag);
            let (os, oc) = match &n.v {
                Val::Range(s, c) => (*s, *c),
                _ => unreachable!(),
            };
            match route {
                0 => t.set_value(*s, *c),
                1 => {
                    t.set_start(*s);
                    *c = oc;
                }
                _ => {
                    t.set_count(*c);
                    *s = os;
                }
            }
        }
        Val::Version(x) => {
            let t = get!(ILVersionTag);
            let old = match &n.v {
                Val::Version(v) => *v,
                _ => unreachable!(),
            };
            match rng.below(6) {
                0 => t.set_value(x[0], x[1], x[2], x[3]),
                1 => t.set_value_from_slice(x),
                k => {
                    let i = (k - 2) as usize;
                    let v = x[i];
                    *x = old;
                    x[i] = v;
                    match i {
                        0 => t.set_major(v),
                        1 => t.set_minor(v),
                        2 => t.set_revision(v),
                        _ => t.set_build(v),
                    }
                }
            }
        }
        Val::StrDict(m) => {
            let t = get!(ILStrDictTag);
            let mut old = match &n.v {
                Val::StrDict(o) => o.clone(),
                _ => unreachable!(),
            };
            match route {
                0 => {
                    t.mut_value().clear();
                    old.clear();
                }
                1 => {
                    if let Some(k) = old.keys().next().cloned() {
                        old.remove(&k);
                        let r = t.mut_value().remove(std::str::from_utf8(&k).unwrap());
                        assert!(r.is_some(), "an entry was missing");
                    }
                }
                _ => {}
            }
            for (k, s) in m.iter() {
                let r = t.insert(std::str::from_utf8(k).unwrap(), s);
                let o = old.insert(k.clone(), s.clone());
                assert!(r == o, "insert() returned {:?} instead of {:?}", r, o);
            }
            *m = old;
        }
        Val::PRec(x, y, z) => {
            let t = get!(RecTag);
            let (oa, ob) = match &n.v {
                Val::PRec(a, b, _) => (*a, *b),
                _ => unreachable!(),
            };
            t.rest = z.clone();
            if route > 0 {
                t.mut_payload().a = *x;
                t.b = *y;
            } else {
                *x = oa;
                *y = ob;
            }
        }
        Val::TagArr(_) | Val::Seq(_) | Val::Dict(_) | Val::PNest(_) => panic!("not a leaf"),
    }
    n.v = v;
}

fn edit<T: Clone>(rng: &mut Rng, route: u64, new: &mut Vec<T>, v: &mut Vec<T>) {
    match route {
        0 => *v = new.clone(),
        1 => {
            v.extend_from_slice(new);
            *new = v.clone();
        }
        _ => {
            let k = rng.us(v.len() + 1);
            v.truncate(k);
            if !new.is_empty() && rng.bool() {
                v.insert(0, new[0].clone());
            }
            *new = v.clone();
        }
    }
}

/// Changes a tag somewhere in the tree, and the model with it.
pub fn touch(rng: &mut Rng, n: &mut Node, t: &mut dyn ILTag, fresh: &dyn Fn(&mut Rng) -> Node) {
    let kids = n.children().len();
    let container = matches!(n.v, Val::TagArr(_) | Val::Seq(_) | Val::Dict(_) | Val::PNest(_));
    if !container {
        let max = *rng.pick(&[3usize, 20, 250, 520]);
        return set_leaf(rng, n, t, max);
    }
    if kids > 0 && !rng.one_in(4) {
        let i = rng.us(kids);
        let c = child_mut(n, t, i);
        // the borrow of t ends with the call
        return touch(rng, model_child_mut(n, i), c, fresh);
    }
    let m = fresh(rng);
    let b = build(&m, rng);
    let op = rng.below(5);
    let a = t.as_mut_any();
    match &mut n.v {
        Val::TagArr(c) => vec_edit(rng, op, c, a.downcast_mut::<ILTagArrayTag>().expect("a tag array").mut_value(), m, b),
        Val::Seq(c) => vec_edit(rng, op, c, a.downcast_mut::<ILTagSeqTag>().expect("a tag sequence").mut_value(), m, b),
        Val::PNest(x) => {
            a.downcast_mut::<NestTag>().expect("a nest tag").mut_payload().inner = Some(b);
            **x = m;
        }
        Val::Dict(e) => {
            let d = a.downcast_mut::<ILDictTag>().expect("a dictionary");
            match op {
                0 => {
                    e.clear();
                    d.mut_value().clear();
                }
                1 if !e.is_empty() => {
                    let k = e.keys().nth(rng.us(e.len())).unwrap().clone();
                    e.remove(&k);
                    assert!(d.mut_value().remove(std::str::from_utf8(&k).unwrap()).is_some(), "an entry was missing");
                }
                2 if !e.is_empty() => {
                    let k = e.keys().nth(rng.us(e.len())).unwrap().clone();
                    let o = e.insert(k.clone(), m);
                    let r = d.insert(std::str::from_utf8(&k).unwrap(), b);
                    assert!(r.map(|t| observe(t.as_ref())) == o, "insert() did not return the entry replaced");
                }
                _ => {
                    let k = crate::gen::key(rng);
                    let r = d.insert(&k, b);
                    let o = e.insert(k.into_bytes(), m);
                    assert!(r.map(|t| observe(t.as_ref())) == o, "insert() did not return the entry replaced");
                }
            }
        }
        _ => unreachable!(),
    }
}

fn vec_edit(rng: &mut Rng, op: u64, c: &mut Vec<Node>, v: &mut Vec<Tag>, m: Node, b: Tag) {
    match op {
        0 => {
            c.clear();
            v.clear();
        }
        1 if !c.is_empty() => {
            let i = rng.us(c.len());
            c.remove(i);
            v.remove(i);
        }
        2 if !c.is_empty() => {
            let i = rng.us(c.len());
            c[i] = m;
            v[i] = b;
        }
        3 if !c.is_empty() => {
            let i = rng.us(c.len());
            c.insert(i, m);
            v.insert(i, b);
        }
        _ => {
            c.push(m);
            v.push(b);
        }
    }
}
