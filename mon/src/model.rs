//! Reference model of the ILTags format, written from the specification: values, encoder,
//! decoder. Shares no code with the library under test.
use std::collections::BTreeMap;

pub const MAX_TAG: u64 = 512 * 1024 * 1024;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Null, Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, B128, ILInt, SILInt,
    Bytes, Str, BigInt, BigDec, IntArr, TagArr, Seq, Range, Version, Oid, Dict, StrDict, Raw,
    /// custom payload: opaque bytes
    PBlob,
    /// custom payload: u16, ILInt, then the rest as bytes
    PRec,
    /// custom payload: exactly one nested tag decoded with the factory
    PNest,
}

pub const STD_KINDS: [(u64, Kind); 27] = [
    (0, Kind::Null), (1, Kind::Bool), (2, Kind::I8), (3, Kind::U8), (4, Kind::I16),
    (5, Kind::U16), (6, Kind::I32), (7, Kind::U32), (8, Kind::I64), (9, Kind::U64),
    (10, Kind::ILInt), (11, Kind::F32), (12, Kind::F64), (13, Kind::B128), (14, Kind::SILInt),
    (16, Kind::Bytes), (17, Kind::Str), (18, Kind::BigInt), (19, Kind::BigDec),
    (20, Kind::IntArr), (21, Kind::TagArr), (22, Kind::Seq), (23, Kind::Range),
    (24, Kind::Version), (25, Kind::Oid), (30, Kind::Dict), (31, Kind::StrDict),
];

pub const ALL_KINDS: [Kind; 31] = [
    Kind::Null, Kind::Bool, Kind::I8, Kind::U8, Kind::I16, Kind::U16, Kind::I32, Kind::U32,
    Kind::I64, Kind::U64, Kind::F32, Kind::F64, Kind::B128, Kind::ILInt, Kind::SILInt,
    Kind::Bytes, Kind::Str, Kind::BigInt, Kind::BigDec, Kind::IntArr, Kind::TagArr, Kind::Seq,
    Kind::Range, Kind::Version, Kind::Oid, Kind::Dict, Kind::StrDict, Kind::Raw,
    Kind::PBlob, Kind::PRec, Kind::PNest,
];

pub fn std_id(k: Kind) -> Option<u64> {
    STD_KINDS.iter().find(|(_, x)| *x == k).map(|(i, _)| *i)
}

/// Kinds whose type has a constructor taking any id.
pub fn id_free(k: Kind) -> bool {
    !matches!(k, Kind::Bytes | Kind::BigInt)
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    B128([u8; 16]),
    ILInt(u64),
    SILInt(i64),
    Bytes(Vec<u8>),
    Str(String),
    BigInt(Vec<u8>),
    BigDec(i32, Vec<u8>),
    IntArr(Vec<u64>),
    TagArr(Vec<Node>),
    Seq(Vec<Node>),
    Range(u64, u16),
    Version([i32; 4]),
    Oid(Vec<u64>),
    Dict(BTreeMap<Vec<u8>, Node>),
    StrDict(BTreeMap<Vec<u8>, String>),
    Raw(Vec<u8>),
    PBlob(Vec<u8>),
    PRec(u16, u64, Vec<u8>),
    PNest(Box<Node>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub id: u64,
    pub v: Val,
}

impl Val {
    pub fn kind(&self) -> Kind {
        match self {
            Val::Null => Kind::Null,
            Val::Bool(_) => Kind::Bool,
            Val::I8(_) => Kind::I8,
            Val::U8(_) => Kind::U8,
            Val::I16(_) => Kind::I16,
            Val::U16(_) => Kind::U16,
            Val::I32(_) => Kind::I32,
            Val::U32(_) => Kind::U32,
            Val::I64(_) => Kind::I64,
            Val::U64(_) => Kind::U64,
            Val::F32(_) => Kind::F32,
            Val::F64(_) => Kind::F64,
            Val::B128(_) => Kind::B128,
            Val::ILInt(_) => Kind::ILInt,
            Val::SILInt(_) => Kind::SILInt,
            Val::Bytes(_) => Kind::Bytes,
            Val::Str(_) => Kind::Str,
            Val::BigInt(_) => Kind::BigInt,
            Val::BigDec(..) => Kind::BigDec,
            Val::IntArr(_) => Kind::IntArr,
            Val::TagArr(_) => Kind::TagArr,
            Val::Seq(_) => Kind::Seq,
            Val::Range(..) => Kind::Range,
            Val::Version(_) => Kind::Version,
            Val::Oid(_) => Kind::Oid,
            Val::Dict(_) => Kind::Dict,
            Val::StrDict(_) => Kind::StrDict,
            Val::Raw(_) => Kind::Raw,
            Val::PBlob(_) => Kind::PBlob,
            Val::PRec(..) => Kind::PRec,
            Val::PNest(_) => Kind::PNest,
        }
    }
}

impl Node {
    pub fn kind(&self) -> Kind {
        self.v.kind()
    }
    pub fn children(&self) -> Vec<&Node> {
        match &self.v {
            Val::TagArr(c) | Val::Seq(c) => c.iter().collect(),
            Val::Dict(m) => m.values().collect(),
            Val::PNest(n) => vec![n],
            _ => vec![],
        }
    }
    /// number of tags in the tree
    pub fn count(&self) -> u64 {
        1 + self.children().iter().map(|c| c.count()).sum::<u64>()
    }
    /// nesting depth (a leaf is 1)
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn kinds(&self, out: &mut Vec<Kind>) {
        out.push(self.kind());
        for c in self.children() {
            c.kinds(out);
        }
    }
    /// short printable form for samples and messages
    pub fn brief(&self) -> String {
        let mut s = format!("{:?}", self);
        if s.len() > 240 {
            let mut e = 240;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push_str("...");
        }
        s
    }
}

// ---------------------------------------------------------------- ILInt

/// Number of bytes the ILInt format assigns to v.
pub fn ilint_len(v: u64) -> usize {
    if v < 248 {
        return 1;
    }
    let x = v as u128 - 248;
    let mut n = 1;
    while n < 8 && x >= (1u128 << (8 * n)) {
        n += 1;
    }
    n + 1
}

pub fn enc_ilint(v: u64, out: &mut Vec<u8>) {
    if v < 248 {
        out.push(v as u8);
        return;
    }
    let n = ilint_len(v) - 1;
    out.push((247 + n) as u8);
    let x = v as u128 - 248;
    for k in (0..n).rev() {
        out.push(((x >> (8 * k)) & 0xff) as u8);
    }
}

pub fn ilint(v: u64) -> Vec<u8> {
    let mut o = Vec::new();
    enc_ilint(v, &mut o);
    o
}

/// Why a message is refused, as far as the format defines it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    /// ends before it is complete
    Short,
    /// malformed content
    Corrupt,
    /// ILInt above 2^64-1
    Overflow,
    Unknown,
    TooLarge,
    /// reads past the end of its enclosing tag
    Overrun,
}

/// (value, length) of the ILInt at the start of b.
pub fn dec_ilint(b: &[u8]) -> Result<(u64, usize), Bad> {
    let h = *b.first().ok_or(Bad::Short)?;
    if h < 248 {
        return Ok((h as u64, 1));
    }
    let n = (h - 247) as usize;
    if b.len() < 1 + n {
        return Err(Bad::Short);
    }
    let mut x: u128 = 248;
    let mut body: u128 = 0;
    for k in 0..n {
        body = body * 256 + b[1 + k] as u128;
    }
    x += body;
    if x > u64::MAX as u128 {
        return Err(Bad::Overflow);
    }
    Ok((x as u64, 1 + n))
}

pub fn zigzag(v: i64) -> u64 {
    let w = v as i128;
    (if w >= 0 { 2 * w } else { -2 * w - 1 }) as u64
}

pub fn unzigzag(u: u64) -> i64 {
    let w = u as i128;
    (if w % 2 == 0 { w / 2 } else { -(w + 1) / 2 }) as i64
}

// ---------------------------------------------------------------- encoder

pub fn enc_str_tag(s: &[u8], out: &mut Vec<u8>) {
    out.push(17);
    enc_ilint(s.len() as u64, out);
    out.extend_from_slice(s);
}

pub fn enc_val(v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Null => {}
        Val::Bool(b) => o.push(if *b { 1 } else { 0 }),
        Val::I8(x) => o.push(*x as u8),
        Val::U8(x) => o.push(*x),
        Val::I16(x) => be(*x as u16 as u64, 2, o),
        Val::U16(x) => be(*x as u64, 2, o),
        Val::I32(x) => be(*x as u32 as u64, 4, o),
        Val::U32(x) => be(*x as u64, 4, o),
        Val::I64(x) => be(*x as u64, 8, o),
        Val::U64(x) => be(*x, 8, o),
        Val::F32(x) => be(*x as u64, 4, o),
        Val::F64(x) => be(*x, 8, o),
        Val::B128(x) => o.extend_from_slice(x),
        Val::ILInt(x) => enc_ilint(*x, o),
        Val::SILInt(x) => enc_ilint(zigzag(*x), o),
        Val::Bytes(x) | Val::BigInt(x) | Val::Raw(x) | Val::PBlob(x) => o.extend_from_slice(x),
        Val::Str(x) => o.extend_from_slice(x.as_bytes()),
        Val::BigDec(s, x) => {
            be(*s as u32 as u64, 4, o);
            o.extend_from_slice(x)
        }
        Val::IntArr(x) | Val::Oid(x) => {
            enc_ilint(x.len() as u64, o);
            for i in x {
                enc_ilint(*i, o)
            }
        }
        Val::TagArr(c) => {
            enc_ilint(c.len() as u64, o);
            for n in c {
                enc_node(n, o)
            }
        }
        Val::Seq(c) => {
            for n in c {
                enc_node(n, o)
            }
        }
        Val::Range(s, c) => {
            enc_ilint(*s, o);
            be(*c as u64, 2, o)
        }
        Val::Version(x) => {
            for i in x {
                be(*i as u32 as u64, 4, o)
            }
        }
        Val::Dict(m) => {
            enc_ilint(m.len() as u64, o);
            for (k, n) in m {
                enc_str_tag(k, o);
                enc_node(n, o)
            }
        }
        Val::StrDict(m) => {
            enc_ilint(m.len() as u64, o);
            for (k, s) in m {
                enc_str_tag(k, o);
                enc_str_tag(s.as_bytes(), o)
            }
        }
        Val::PRec(a, b, c) => {
            be(*a as u64, 2, o);
            enc_ilint(*b, o);
            o.extend_from_slice(c)
        }
        Val::PNest(n) => enc_node(n, o),
    }
}

fn be(v: u64, n: usize, o: &mut Vec<u8>) {
    for k in (0..n).rev() {
        o.push(((v >> (8 * k)) & 0xff) as u8)
    }
}

pub fn enc_node(n: &Node, o: &mut Vec<u8>) {
    let v = value_bytes(n);
    enc_ilint(n.id, o);
    if n.id > 15 {
        enc_ilint(v.len() as u64, o);
    }
    o.extend_from_slice(&v);
}

pub fn value_bytes(n: &Node) -> Vec<u8> {
    let mut v = Vec::new();
    enc_val(&n.v, &mut v);
    v
}

pub fn bytes_of(n: &Node) -> Vec<u8> {
    let mut o = Vec::new();
    enc_node(n, &mut o);
    o
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug)]
pub struct Registry {
    pub strict: bool,
    pub kinds: BTreeMap<u64, Kind>,
}

impl Registry {
    pub fn standard(strict: bool) -> Self {
        Registry { strict, kinds: STD_KINDS.iter().cloned().collect() }
    }
    pub fn kind_of(&self, id: u64) -> Option<Kind> {
        match self.kinds.get(&id) {
            Some(k) => Some(*k),
            None if !self.strict && id > 15 => Some(Kind::Raw),
            None => None,
        }
    }
}

/// Size of the value of an implicit tag of fixed size; None for the two ILInt tags.
pub fn implicit_size(id: u64) -> Option<usize> {
    match id {
        0 => Some(0),
        1 | 2 | 3 => Some(1),
        4 | 5 => Some(2),
        6 | 7 | 11 => Some(4),
        8 | 9 | 12 => Some(8),
        13 => Some(16),
        _ => None,
    }
}

pub struct Decoded {
    pub node: Node,
    pub used: usize,
    pub depth: usize,
}

/// Decodes one tag at the start of b. `nested` tells whether b ends where an enclosing tag
/// ends (a shortage is then an overrun of that tag).
pub fn dec_node(r: &Registry, b: &[u8], nested: bool, level: usize) -> Result<Decoded, Bad> {
    if level > 3000 {
        return Err(Bad::TooLarge);
    }
    let short = |e: Bad| if e == Bad::Short && nested { Bad::Overrun } else { e };
    let (id, n) = dec_ilint(b).map_err(short)?;
    let mut p = n;
    if id <= 15 {
        let k = r.kind_of(id).ok_or(Bad::Unknown)?;
        match implicit_size(id) {
            Some(sz) => {
                if b.len() < p + sz {
                    // a fixed size value must be complete; what it is can be told only then
                    return Err(short(Bad::Short));
                }
                let (v, d) = dec_val(r, k, &b[p..p + sz], level)?;
                Ok(Decoded { node: Node { id, v }, used: p + sz, depth: d + 1 })
            }
            None => {
                if id != 10 && id != 14 {
                    // no implicit tag 15
                    return Err(Bad::Corrupt);
                }
                let (x, n) = dec_ilint(&b[p..]).map_err(short)?;
                let v = match k {
                    Kind::ILInt => Val::ILInt(x),
                    Kind::SILInt => Val::SILInt(unzigzag(x)),
                    _ => return Err(Bad::Corrupt),
                };
                Ok(Decoded { node: Node { id, v }, used: p + n, depth: 1 })
            }
        }
    } else {
        let (sz, n) = dec_ilint(&b[p..]).map_err(short)?;
        p += n;
        if sz > MAX_TAG {
            return Err(Bad::TooLarge);
        }
        let k = r.kind_of(id).ok_or(Bad::Unknown)?;
        let sz = sz as usize;
        if b.len() < p + sz {
            return Err(short(Bad::Short));
        }
        let (v, d) = dec_val(r, k, &b[p..p + sz], level)?;
        Ok(Decoded { node: Node { id, v }, used: p + sz, depth: d + 1 })
    }
}

fn fixed(b: &[u8], n: usize) -> Result<u64, Bad> {
    if b.len() != n {
        return Err(Bad::Corrupt);
    }
    let mut x: u64 = 0;
    for c in b {
        x = (x << 8) | *c as u64;
    }
    Ok(x)
}

fn dec_key(b: &[u8]) -> Result<(Vec<u8>, usize), Bad> {
    let over = |e: Bad| if e == Bad::Short { Bad::Overrun } else { e };
    let (id, mut p) = dec_ilint(b).map_err(over)?;
    if id != 17 {
        return Err(Bad::Corrupt);
    }
    let (len, n) = dec_ilint(&b[p..]).map_err(over)?;
    p += n;
    if len > MAX_TAG {
        return Err(Bad::TooLarge);
    }
    let len = len as usize;
    if b.len() < p + len {
        return Err(Bad::Overrun);
    }
    if !utf8_ok(&b[p..p + len]) {
        return Err(Bad::Corrupt);
    }
    Ok((b[p..p + len].to_vec(), p + len))
}

/// Well-formed UTF-8 (Unicode table 3-7), written out independently of std.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if b[i + k] < l || b[i + k] > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

fn text(b: &[u8]) -> Result<String, Bad> {
    if !utf8_ok(b) {
        return Err(Bad::Corrupt);
    }
    Ok(String::from_utf8(b.to_vec()).expect("utf8_ok accepts only UTF-8"))
}

/// Decodes the value of a tag of kind k from exactly the bytes b.
pub fn dec_val(r: &Registry, k: Kind, b: &[u8], level: usize) -> Result<(Val, usize), Bad> {
    let over = |e: Bad| if e == Bad::Short { Bad::Overrun } else { e };
    let mut depth = 0;
    let v = match k {
        Kind::Null => {
            fixed(b, 0)?;
            Val::Null
        }
        Kind::Bool => match fixed(b, 1)? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            _ => return Err(Bad::Corrupt),
        },
        Kind::I8 => Val::I8(fixed(b, 1)? as i8),
        Kind::U8 => Val::U8(fixed(b, 1)? as u8),
        Kind::I16 => Val::I16(fixed(b, 2)? as i16),
        Kind::U16 => Val::U16(fixed(b, 2)? as u16),
        Kind::I32 => Val::I32(fixed(b, 4)? as i32),
        Kind::U32 => Val::U32(fixed(b, 4)? as u32),
        Kind::I64 => Val::I64(fixed(b, 8)? as i64),
        Kind::U64 => Val::U64(fixed(b, 8)?),
        Kind::F32 => Val::F32(fixed(b, 4)? as u32),
        Kind::F64 => Val::F64(fixed(b, 8)?),
        Kind::B128 => {
            if b.len() != 16 {
                return Err(Bad::Corrupt);
            }
            let mut x = [0u8; 16];
            x.copy_from_slice(b);
            Val::B128(x)
        }
        Kind::ILInt | Kind::SILInt => {
            let (x, n) = dec_ilint(b).map_err(over)?;
            if n != b.len() {
                return Err(Bad::Corrupt);
            }
            if k == Kind::ILInt {
                Val::ILInt(x)
            } else {
                Val::SILInt(unzigzag(x))
            }
        }
        Kind::Bytes => Val::Bytes(b.to_vec()),
        Kind::BigInt => Val::BigInt(b.to_vec()),
        Kind::Raw => Val::Raw(b.to_vec()),
        Kind::PBlob => Val::PBlob(b.to_vec()),
        Kind::Str => Val::Str(text(b)?),
        Kind::BigDec => {
            if b.len() < 4 {
                return Err(Bad::Corrupt);
            }
            Val::BigDec(fixed(&b[..4], 4)? as i32, b[4..].to_vec())
        }
        Kind::IntArr | Kind::Oid => {
            let (count, mut p) = dec_ilint(b).map_err(over)?;
            if count > b.len() as u64 {
                return Err(Bad::Corrupt);
            }
            let mut x = Vec::new();
            for _ in 0..count {
                let (i, n) = dec_ilint(&b[p..]).map_err(over)?;
                x.push(i);
                p += n;
            }
            if p != b.len() {
                return Err(Bad::Corrupt);
            }
            if k == Kind::Oid {
                Val::Oid(x)
            } else {
                Val::IntArr(x)
            }
        }
        Kind::TagArr => {
            let (count, mut p) = dec_ilint(b).map_err(over)?;
            if count > b.len() as u64 {
                return Err(Bad::Corrupt);
            }
            let mut c = Vec::new();
            for _ in 0..count {
                let d = dec_node(r, &b[p..], true, level + 1)?;
                p += d.used;
                depth = depth.max(d.depth);
                c.push(d.node);
            }
            if p != b.len() {
                return Err(Bad::Corrupt);
            }
            Val::TagArr(c)
        }
        Kind::Seq => {
            let mut p = 0;
            let mut c = Vec::new();
            while p < b.len() {
                let d = dec_node(r, &b[p..], true, level + 1)?;
                p += d.used;
                depth = depth.max(d.depth);
                c.push(d.node);
            }
            Val::Seq(c)
        }
        Kind::Range => {
            let (s, n) = dec_ilint(b).map_err(over)?;
            if b.len() < n + 2 {
                return Err(Bad::Overrun);
            }
            Val::Range(s, fixed(&b[n..], 2)? as u16)
        }
        Kind::Version => {
            if b.len() != 16 {
                return Err(Bad::Corrupt);
            }
            let mut x = [0i32; 4];
            for i in 0..4 {
                x[i] = fixed(&b[4 * i..4 * i + 4], 4)? as i32;
            }
            Val::Version(x)
        }
        Kind::Dict => {
            let (count, mut p) = dec_ilint(b).map_err(over)?;
            let mut m = BTreeMap::new();
            for _ in 0..count {
                let (key, n) = dec_key(&b[p..])?;
                p += n;
                let d = dec_node(r, &b[p..], true, level + 1)?;
                p += d.used;
                depth = depth.max(d.depth);
                m.insert(key, d.node);
            }
            if p != b.len() {
                return Err(Bad::Corrupt);
            }
            Val::Dict(m)
        }
        Kind::StrDict => {
            let (count, mut p) = dec_ilint(b).map_err(over)?;
            let mut m = BTreeMap::new();
            for _ in 0..count {
                let (key, n) = dec_key(&b[p..])?;
                p += n;
                let (val, n) = dec_key(&b[p..])?;
                p += n;
                m.insert(key, String::from_utf8(val).unwrap());
            }
            if p != b.len() {
                return Err(Bad::Corrupt);
            }
            Val::StrDict(m)
        }
        Kind::PRec => {
            if b.len() < 2 {
                return Err(Bad::Overrun);
            }
            let a = fixed(&b[..2], 2)? as u16;
            let (x, n) = dec_ilint(&b[2..]).map_err(over)?;
            Val::PRec(a, x, b[2 + n..].to_vec())
        }
        Kind::PNest => {
            let d = dec_node(r, b, true, level + 1)?;
            if d.used != b.len() {
                return Err(Bad::Corrupt);
            }
            depth = d.depth;
            Val::PNest(Box::new(d.node))
        }
    };
    Ok((v, depth))
}

/// Decodes a complete message.
pub fn dec_all(r: &Registry, b: &[u8]) -> Result<Decoded, Bad> {
    let d = dec_node(r, b, false, 0)?;
    if d.used != b.len() {
        return Err(Bad::Corrupt);
    }
    Ok(d)
}
