//! C05-C08, C12, C13: whole tags against the reference encoder and decoder.
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::gen::{self, Cfg};
use crate::iomon::*;
use crate::model::*;
use crate::props::ints::on_writers;
use crate::rng::{fnv, Rng};
use il2_iltags::io::array::*;
use il2_iltags::io::{ReadReader, Reader, WriteWriter};
use il2_iltags::tags::serialization::ByteArrayDeserializer;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;

pub fn note(c: &mut Ctx, n: &Node) {
    let mut k = vec![];
    n.kinds(&mut k);
    c.n("tags", k.len() as u64);
    c.max("deepest", n.depth() as u64);
    for x in k {
        if x == Kind::Raw {
            c.n("raw tags", 1);
        } else if matches!(x, Kind::PBlob | Kind::PRec | Kind::PNest) {
            c.n("custom tags", 1);
        }
    }
}

pub fn c05(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let n = if c.index % 41 == 40 {
        // payloads of megabytes
        let big = Cfg { reg: &reg, max_payload: 1 << 20, raw_one_in: 8 };
        let k = 1 << (14 + rng.below(7));
        let size = if c.index % 410 == 409 && !c.interp { gen::bulk_len(&mut rng) } else { gen::near(&mut rng, k, 300) as usize };
        let v = gen::bulk(&mut rng, size, &cfg);
        if rng.bool() {
            let mut budget = 5;
            Node { id: 22, v: Val::Seq(vec![gen::node(&mut rng, &big, 2, &mut budget), v]) }
        } else {
            v
        }
    } else if c.index % 283 == 282 {
        let k = gen::big_len(&mut rng, 140_000);
        gen::crowd(&mut rng, k)
    } else {
        gen::tree(&mut rng, &cfg)
    };
    note(c, &n);
    c.max("most entries", n.count());
    let t = build(&n, &mut rng);
    let o = observe(t.as_ref());
    ck!(o == n, "a tag built as {} reads back as {}", n.brief(), o.brief());
    let b = ser(t.as_ref())?;
    c.case(fnv(&b));
    c.n("bytes", b.len() as u64);
    c.max("largest message", b.len() as u64);
    c.sample(|| format!("{} as {}", n.brief(), hex(&b)));
    let mut routes = vec![0, 1];
    for _ in 0..3 {
        routes.push(rng.us(ROUTES));
    }
    if b.len() > (1 << 18) {
        routes.truncate(3);
    }
    for r in routes {
        let t2 = match decode_by(&f, r, &b, &mut rng) {
            Ok(t) => t,
            Err(e) => return Err(format!("{} of {} ({}) failed: {:?}", route_name(r), n.brief(), hex(&b), e)),
        };
        let o = observe(t2.as_ref());
        ck!(o == n, "{} of {} gave {}", route_name(r), n.brief(), o.brief());
        let b2 = ser(t2.as_ref())?;
        ck!(b2 == b, "re-serializing {} gives {}", n.brief(), diff(&b, &b2));
        c.n("round trips", 1);
    }
    // another way of building the same value
    let t3 = build(&n, &mut rng);
    let b3 = ser(t3.as_ref())?;
    ck!(b3 == b, "{} built another way serializes differently: {}", n.brief(), diff(&b, &b3));
    let t4 = iltag_clone_with_factory(&f, t3.as_ref()).map_err(|e| format!("clone of {}: {:?}", n.brief(), e))?;
    ck!(observe(t4.as_ref()) == n, "clone of {} is {}", n.brief(), observe(t4.as_ref()).brief());
    Ok(())
}

/// C06 on one tag and everything below it.
fn sizes(c: &mut Ctx, n: &Node, t: &dyn ILTag) -> R {
    // the children first: a wrong size is reported where it arises
    for (i, k) in n.children().into_iter().enumerate() {
        sizes(c, k, child(n, t, i))?;
    }
    let mut w = VecWriter::new();
    t.serialize_value(&mut w).map_err(|e| format!("serialize_value of {}: {:?}", n.brief(), e))?;
    let vlen = w.as_slice().len() as u64;
    ck!(t.value_size() == vlen, "value_size of {} is {}, its value has {} bytes", n.brief(), t.value_size(), vlen);
    let b = ser(t)?;
    ck!(t.size() == b.len() as u64, "size of {} is {}, {} bytes written", n.brief(), t.size(), b.len());
    let mut h = ilint(n.id);
    if n.id > 15 {
        enc_ilint(vlen, &mut h);
    }
    ck!(t.id() == n.id && b.starts_with(&h) && b[h.len()..] == *w.as_slice(), "header of {} is {}, not {}", n.brief(), hex(&b[..h.len().min(b.len())]), hex(&h));
    ck!(t.is_implicity() == (n.id <= 15), "is_implicity of id {} is {}", n.id, t.is_implicity());
    ck!(t.is_reserved() == (n.id <= 31), "is_reserved of id {} is {}", n.id, t.is_reserved());
    c.n("tags sized", 1);
    Ok(())
}

pub fn c06(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let cfg = Cfg { reg: &reg, max_payload: 600, raw_one_in: 8 };
    let mut n = if rng.one_in(8) { gen::tree(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 4000) };
    if c.index % 1511 == 1510 && !c.interp {
        let s = "x".repeat(gen::big_len(&mut rng, 140_000));
        let mut w = VecWriter::new();
        explicit::serialize_string_tag_from_value(&s, &mut w).map_err(|e| format!("{:?}", e))?;
        let z = explicit::string_tag_size_from_value(&s);
        let want = bytes_of(&Node { id: 17, v: Val::Str(s.clone()) }).len() as u64;
        ck!(z == want && w.as_slice().len() as u64 == want, "a string tag of {} bytes is announced as {} and takes {}", want, z, w.as_slice().len());
    }
    if (c.index % 1511 == 1510 || c.index % 37 == 36) && !c.interp {
        // very many entries: sized as a whole, not one by one
        let k = if c.index % 1511 == 1510 { gen::big_len(&mut rng, 140_000) } else { 215 + rng.us(50) };
        let n = gen::crowd(&mut rng, k);
        let t = build(&n, &mut rng);
        let want = bytes_of(&n).len() as u64;
        ck!(t.size() == want && t.value_size() == value_bytes(&n).len() as u64, "a tag of id {} with {} entries says {} of {} bytes", n.id, k, t.size(), want);
        let b = ser(t.as_ref())?.len() as u64;
        ck!(b == want, "a tag of id {} with {} entries takes {} bytes", n.id, k, b);
        c.n("crowds", 1);
    }
    if n.count() * n.depth() as u64 > 40_000 {
        n = gen::small_tree(&mut rng, &cfg, 4000);
    }
    c.case(fnv(&bytes_of(&n)));
    c.sample(|| n.brief());
    let mut t = build(&n, &mut rng);
    sizes(c, &n, t.as_ref())?;
    let rounds = if n.count() > 300 { 1 } else { 6 };
    let small = |r: &mut Rng| gen::small_tree(r, &Cfg::new(&Registry::standard(false)), 300);
    for _ in 0..rounds {
        touch(&mut rng, &mut n, t.as_mut(), &small);
        let o = observe(t.as_ref());
        ck!(o == n, "after a change the tag reads as {} instead of {}", o.brief(), n.brief());
        sizes(c, &n, t.as_ref())?;
        c.n("changes", 1);
    }
    // a type used with an id of the other class: the header follows the id
    let k = gen::any_kind(&mut rng);
    let id = if rng.bool() { rng.below(16) } else { 16 + rng.below(300) };
    let asserts = matches!(k, Kind::Raw | Kind::BigDec);
    if !(id < 16 && asserts) {
        let v = gen::leaf_val(&mut rng, k, 600);
        let n = Node { id, v };
        let t = build(&n, &mut rng);
        sizes(c, &n, t.as_ref())?;
        c.n(if id < 16 { "odd implicit ids" } else { "odd explicit ids" }, 1);
    }
    // helpers that announce the size of a string tag
    let s = gen::string(&mut rng, 700);
    let mut w = VecWriter::new();
    explicit::serialize_string_tag_from_value(&s, &mut w).map_err(|e| format!("{:?}", e))?;
    let z = explicit::string_tag_size_from_value(&s);
    ck!(z == w.as_slice().len() as u64, "string_tag_size_from_value gives {} for {} bytes", z, w.as_slice().len());
    // flags of any id
    for _ in 0..20 {
        let id = gen::u64_any(&mut rng);
        ck!(is_implicit_tag(id) == (id <= 15) && is_reserved_tag(id) == (id <= 31), "flags of id {}", id);
        let t = ILNullTag::with_id(id);
        ck!(t.is_implicity() == (id <= 15) && t.is_reserved() == (id <= 31), "flags of a tag of id {}", id);
        let want = ilint_len(id) as u64 + if id > 15 { 1 } else { 0 };
        ck!(t.size() == want && t.value_size() == 0, "size of an empty tag of id {} is {}", id, t.size());
    }
    Ok(())
}

/// Messages written by hand from the specification.
fn golden() -> Vec<(&'static str, Tag, Vec<u8>)> {
    let mut v: Vec<(&'static str, Tag, Vec<u8>)> = vec![];
    v.push(("null", Box::new(ILNullTag::new()), vec![0]));
    v.push(("true", Box::new(ILBoolTag::with_value(true)), vec![1, 1]));
    v.push(("false", Box::new(ILBoolTag::with_value(false)), vec![1, 0]));
    v.push(("i8", Box::new(ILInt8Tag::with_value(-2)), vec![2, 0xfe]));
    v.push(("u8", Box::new(ILUInt8Tag::with_value(250)), vec![3, 250]));
    v.push(("i16", Box::new(ILInt16Tag::with_value(-2)), vec![4, 0xff, 0xfe]));
    v.push(("u16", Box::new(ILUInt16Tag::with_value(0x1234)), vec![5, 0x12, 0x34]));
    v.push(("i32", Box::new(ILInt32Tag::with_value(-2)), vec![6, 0xff, 0xff, 0xff, 0xfe]));
    v.push(("u32", Box::new(ILUInt32Tag::with_value(0x12345678)), vec![7, 0x12, 0x34, 0x56, 0x78]));
    v.push(("i64", Box::new(ILInt64Tag::with_value(-2)), vec![8, 255, 255, 255, 255, 255, 255, 255, 254]));
    v.push(("u64", Box::new(ILUInt64Tag::with_value(0x0102030405060708)), vec![9, 1, 2, 3, 4, 5, 6, 7, 8]));
    v.push(("ilint 247", Box::new(ILILInt64Tag::with_value(247)), vec![10, 247]));
    v.push(("ilint 248", Box::new(ILILInt64Tag::with_value(248)), vec![10, 248, 0]));
    v.push(("ilint max", Box::new(ILILInt64Tag::with_value(u64::MAX)), vec![10, 255, 255, 255, 255, 255, 255, 255, 255, 7]));
    v.push(("f32 1.0", Box::new(ILBin32Tag::with_value(1.0)), vec![11, 0x3f, 0x80, 0, 0]));
    v.push(("f64 1.0", Box::new(ILBin64Tag::with_value(1.0)), vec![12, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0]));
    v.push(("silint -1", Box::new(ILSignedILInt64Tag::with_value(-1)), vec![14, 1]));
    v.push(("silint 1", Box::new(ILSignedILInt64Tag::with_value(1)), vec![14, 2]));
    v.push(("silint min", Box::new(ILSignedILInt64Tag::with_value(i64::MIN)), vec![14, 255, 255, 255, 255, 255, 255, 255, 255, 7]));
    v.push(("bytes", Box::new(ILByteArrayTag::with_value(&[1, 2, 3])), vec![16, 3, 1, 2, 3]));
    v.push(("string", Box::new(ILStringTag::with_value("é!")), vec![17, 3, 0xc3, 0xa9, 0x21]));
    v.push(("bigint", Box::new(ILBigIntTag::with_value(&[255, 0])), vec![18, 2, 255, 0]));
    v.push(("bigdec", Box::new(ILBigDecTag::with_value(-2, &[9])), vec![19, 5, 255, 255, 255, 254, 9]));
    v.push(("ilints", Box::new(ILILIntArrayTag::with_value(&[1, 248])), vec![20, 4, 2, 1, 248, 0]));
    let mut a = ILTagArrayTag::new();
    a.mut_value().push(Box::new(ILNullTag::new()));
    a.mut_value().push(Box::new(ILUInt8Tag::with_value(7)));
    v.push(("array", Box::new(a), vec![21, 4, 2, 0, 3, 7]));
    let mut a = ILTagSeqTag::new();
    a.mut_value().push(Box::new(ILNullTag::new()));
    a.mut_value().push(Box::new(ILUInt8Tag::with_value(7)));
    v.push(("sequence", Box::new(a), vec![22, 3, 0, 3, 7]));
    v.push(("range", Box::new(ILRangeTag::with_value(5, 0x0102)), vec![23, 3, 5, 1, 2]));
    v.push(("version", Box::new(ILVersionTag::with_value(1, 2, 3, -4)), vec![24, 16, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 255, 255, 255, 252]));
    v.push(("oid", Box::new(ILOIDTag::with_value(&[1, 3, 6])), vec![25, 4, 3, 1, 3, 6]));
    let mut d = ILDictTag::new();
    d.insert("b", Box::new(ILNullTag::new()));
    d.insert("a", Box::new(ILBoolTag::with_value(true)));
    v.push(("dictionary", Box::new(d), vec![30, 10, 2, 17, 1, b'a', 1, 1, 17, 1, b'b', 0]));
    let mut d = ILStrDictTag::new();
    d.insert("b", "");
    d.insert("a", "x");
    v.push(("string dictionary", Box::new(d), vec![31, 12, 2, 17, 1, b'a', 17, 1, b'x', 17, 1, b'b', 17, 0]));
    v.push(("raw", Box::new(ILRawTag::with_value(300, &[9, 9])), vec![248, 52, 2, 9, 9]));
    v.push(("string, id 1000", Box::new(ILStringTag::with_id_value(1000, "z")), vec![249, 2, 240, 1, b'z']));
    v.push(("u16, id 40", Box::new(ILUInt16Tag::with_id_value(40, 1)), vec![40, 2, 0, 1]));
    v.push(("null, id 40", Box::new(ILNullTag::with_id(40)), vec![40, 0]));
    v
}

pub fn c07(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    if c.index % 50 == 0 {
        for (what, t, want) in golden() {
            let b = ser(t.as_ref())?;
            ck!(b == want, "{} serializes as {} instead of {}", what, hex(&b), hex(&want));
            c.n("golden vectors", 1);
        }
        for (id, k) in STD_KINDS {
            let v = gen::leaf_val(&mut rng, k, 10);
            if k == Kind::PNest {
                continue;
            }
            let mut any = Rng::new(c.index);
            let t = build(&Node { id, v }, &mut any);
            ck!(t.id() == id, "the standard id of {:?} is {}", k, t.id());
        }
    }
    let reg = gen::registry(&mut rng);
    let cfg = Cfg::new(&reg);
    let n = if c.index % 499 == 498 {
        let k = gen::big_len(&mut rng, 140_000);
        gen::crowd(&mut rng, k)
    } else if c.index % 251 == 250 && !c.interp {
        let size = gen::bulk_len(&mut rng);
        c.n("payloads of megabytes", (size > 1 << 20) as u64);
        gen::bulk(&mut rng, size, &cfg)
    } else {
        gen::tree(&mut rng, &cfg)
    };
    note(c, &n);
    let want = bytes_of(&n);
    c.case(fnv(&want));
    c.sample(|| format!("{} = {}", n.brief(), hex(&want)));
    let t = build(&n, &mut rng);
    let b = ser(t.as_ref())?;
    ck!(b == want, "{} serializes wrongly: {}", n.brief(), diff(&want, &b));
    if want.len() < 20_000 {
        on_writers(c, &want, "serialize", &mut |w| t.serialize(w))?;
    } else {
        let mut w = VecWriter::new();
        t.serialize(&mut w).map_err(|e| format!("{:?}", e))?;
        ck!(w.as_slice() == want.as_slice(), "{}: {}", n.brief(), diff(&want, w.as_slice()));
        let (m, exact) = fragments(&mut rng);
        let mut s = FragW::new(m, 0, rng.fork());
        s.exact = exact;
        t.serialize(&mut WriteWriter::new(&mut s)).map_err(|e| format!("{:?}", e))?;
        ck!(s.out == want, "{} through a stream: {}", n.brief(), diff(&want, &s.out));
    }
    let b = ser(t.as_ref())?;
    ck!(b == want, "{} serializes differently the next time: {}", n.brief(), diff(&want, &b));
    // embedded in a buffer that holds other data
    let pre = rng.us(20);
    let mut v = rng.bytes(pre);
    let old = v.clone();
    {
        let mut w = BorrowedVecWriter::with_offset(&mut v, pre);
        t.serialize(&mut w).map_err(|e| format!("{:?}", e))?;
    }
    ck!(v[..pre] == old[..] && v[pre..] == want[..], "{} embedded in a buffer is wrong: {}", n.brief(), diff(&want, &v[pre..]));
    Ok(())
}

pub fn agree(what: &str, b: &[u8], want: &std::result::Result<Node, Bad>, got: &Dec) -> R {
    match (want, got) {
        (Ok(n), Ok(t)) => {
            let o = observe(t.as_ref());
            ck!(o == *n, "{} of {}: content {} instead of {}", what, hex(b), o.brief(), n.brief());
        }
        (Err(_), Err(_)) => {}
        (Ok(n), Err(e)) => return Err(format!("{} refuses {} with {:?}; it is {}", what, hex(b), e, n.brief())),
        (Err(e), Ok(t)) => return Err(format!("{} accepts {} as {}; it is malformed ({:?})", what, hex(b), observe(t.as_ref()).brief(), e)),
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    // everything of up to two bytes, and the most regular part of what is longer
    if c.index < 257 {
        let r = Registry::standard(c.index % 2 == 0);
        let f = ILStandardTagFactory::new(c.index % 2 == 0);
        let mut b = vec![];
        if c.index > 0 {
            b.push((c.index - 1) as u8);
        }
        let mut all = |c: &mut Ctx, b: &[u8]| -> R {
            let want = dec_all(&r, b).map(|d| d.node);
            c.n("short messages", 1);
            c.case(fnv(b));
            agree("from_bytes", b, &want, &f.from_bytes(b))
        };
        all(c, &b)?;
        for y in 0..=255u8 {
            b.push(y);
            all(c, &b)?;
            for z in [0u8, 1, 2, 3, 16, 17, 247, 248, 255] {
                b.push(z);
                all(c, &b)?;
                for q in [0u8, 1, 17, 22, 255] {
                    b.push(q);
                    all(c, &b)?;
                    b.pop();
                }
                b.pop();
            }
            b.pop();
        }
    }
    for _ in 0..12 {
        let b = gen::hostile(&mut rng, &cfg);
        let d = dec_all(&reg, &b);
        if let Ok(d) = &d {
            if d.depth > gen::DEEP {
                c.n("too deep to judge", 1);
                continue;
            }
        }
        let want = d.map(|d| d.node);
        match &want {
            Ok(n) => {
                c.n("well-formed", 1);
                note(c, n);
            }
            Err(Bad::TooLarge) => {
                // nesting beyond what the model follows is not judged
                c.n("refused: TooLarge", 1);
            }
            Err(e) => c.n(&format!("refused: {:?}", e), 1),
        }
        c.case(fnv(&b));
        c.sample(|| format!("{} -> {:?}", hex(&b), want.as_ref().map(|n| n.brief())));
        for r in [0, 1, rng.us(ROUTES), rng.us(ROUTES)] {
            let got = decode_by(&f, r, &b, &mut rng);
            agree(&route_name(r), &b, &want, &got)?;
            c.n("decodes compared", 1);
        }
    }
    if c.index % 997 == 996 && !c.interp {
        // counts beyond 16 bits: right, and off by one or by 2^16
        let k = gen::big_len(&mut rng, 140_000);
        let n = gen::crowd(&mut rng, k);
        let good = bytes_of(&n);
        for to in [gen::TweakTo::Delta(0), gen::TweakTo::Delta(1), gen::TweakTo::Delta(-1), gen::TweakTo::Delta(65536), gen::TweakTo::Delta(-65536)] {
            let mut t = gen::Tweak::new(1, to);
            let mut b = vec![];
            t.node(&n, &mut b);
            let want = dec_all(&reg, &b).map(|d| d.node);
            let r = rng.us(ROUTES);
            agree(&route_name(r), &b, &want, &decode_by(&f, r, &b, &mut rng))?;
        }
        c.n("crowds", 1);
        c.max("largest message", good.len() as u64);
    }
    // strings read by the helper are judged like the tags
    for _ in 0..2 {
        let b = if rng.bool() { gen::bad_text(&mut rng) } else { gen::hostile(&mut rng, &cfg) };
        let mut std = Registry::standard(true);
        std.kinds.retain(|k, _| *k == 17);
        let want = dec_all(&std, &b);
        let mut r = ByteArrayReader::new(&b);
        let got = explicit::deserialize_string_tag_from_value(&mut r);
        let whole = got.is_ok() && r.offset() == b.len();
        if let Ok(s) = &got {
            text(s);
        }
        match (&want, &got) {
            (Ok(d), Ok(s)) => ck!(d.node.v == Val::Str(s.clone()) && whole, "deserialize_string_tag_from_value of {} gives {:?}", hex(&b), s),
            (Ok(d), Err(e)) => return Err(format!("deserialize_string_tag_from_value refuses {} with {:?}; it is {}", hex(&b), e, d.node.brief())),
            (Err(e), Ok(s)) => ck!(!whole, "deserialize_string_tag_from_value accepts {} as {:?}; it is malformed ({:?})", hex(&b), s, e),
            _ => {}
        }
        c.n("string helper compared", 1);
    }
    // single deviations of every kind, spelled out
    let n = gen::leaf(&mut rng, &cfg);
    let good = bytes_of(&n);
    if n.id > 15 && good.len() < 500 {
        let v = value_bytes(&n);
        for d in [-1i64, 1, 2] {
            // the size and the content agree, but the content has a byte less or more
            let mut v2 = v.clone();
            if d < 0 {
                v2.pop();
            } else {
                v2.resize(v.len() + d as usize, 0);
            }
            let mut b = ilint(n.id);
            enc_ilint(v2.len() as u64, &mut b);
            b.extend_from_slice(&v2);
            let want = dec_all(&reg, &b).map(|d| d.node);
            agree("from_bytes", &b, &want, &f.from_bytes(&b))?;
            c.n("resized values", 1);
        }
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let count = rng.range(1, 7) as usize;
    let mut nodes = vec![];
    let mut data = vec![];
    let mut ends = vec![];
    for i in 0..count {
        let mut n = if rng.one_in(10) { gen::tree(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 600) };
        if rng.one_in(4) {
            // the encoder's choices do not matter: padded numbers too
            let b = gen::padded(&mut rng, &n);
            data.extend_from_slice(&b);
            c.n("padded messages", 1);
        } else {
            data.extend_from_slice(&bytes_of(&n));
        }
        if i + 1 == count && n.id > 15 && rng.one_in(3) {
            n = gen::leaf(&mut rng, &cfg);
            let at = ends.last().cloned().unwrap_or(0);
            data.truncate(at);
            data.extend_from_slice(&bytes_of(&n));
        }
        ends.push(data.len());
        nodes.push(n);
    }
    let tail = match rng.below(4) {
        0 => vec![],
        1 => vec![0xff; 1 + rng.us(12)],
        2 => vec![0; 1 + rng.us(20)],
        _ => gen::soup(&mut rng),
    };
    let end = data.len();
    data.extend_from_slice(&tail);
    c.case(fnv(&data));
    c.sample(|| format!("{} tags and {} bytes in {}", count, tail.len(), hex(&data)));
    c.n("streams", 1);
    for k in [0usize, 1 + rng.us(SOURCES - 1), 1 + rng.us(SOURCES - 1)] {
        let nodes = &nodes;
        let mut rng2 = rng.fork();
        let mut into = vec![];
        for _ in 0..count {
            into.push(rng.one_in(3));
        }
        let mut trouble: Option<String> = None;
        let (seen, pos) = with_source(k, &data, &mut rng2, &mut |r| {
            for (i, n) in nodes.iter().enumerate() {
                let t = if into[i] {
                    let mut t = f.create_tag(n.id).expect("the factory knows the id");
                    f.deserialize_into(r, t.as_mut()).map(|_| t)
                } else {
                    f.deserialize(r)
                };
                match t {
                    Ok(t) => {
                        let o = observe(t.as_ref());
                        if o != *n {
                            trouble = Some(format!("tag {} of the stream is {} instead of {}", i, o.brief(), n.brief()));
                            return i;
                        }
                    }
                    Err(e) => {
                        trouble = Some(format!("tag {} ({}) of the stream: {:?}", i, n.brief(), e));
                        return i;
                    }
                }
            }
            nodes.len()
        });
        if let Some(t) = trouble {
            return Err(format!("{} ({}, bytes {})", t, source_name(k), hex(&data)));
        }
        c.n("tags read in order", seen as u64);
        if let Some(p) = pos {
            ck!(p == end, "{}: position {} after tags that end at {}", source_name(k), p, end);
            c.n("positions checked", 1);
        }
    }
    // what follows is still there
    let mut r = ByteArrayReader::new(&data);
    let mut at = 0;
    for (i, n) in nodes.iter().enumerate() {
        let t = f.deserialize(&mut r).map_err(|e| format!("{:?}", e))?;
        at = ends[i];
        ck!(r.offset() == at, "after tag {} ({}) the offset is {} instead of {}", i, n.brief(), r.offset(), at);
        drop(t);
    }
    let mut rest = vec![0; tail.len()];
    il2_iltags::io::Reader::read_all(&mut r, &mut rest).map_err(|e| format!("{:?}", e))?;
    ck!(rest == tail, "the bytes after the tags were disturbed");
    // a value alone, with its size given by the caller, in front of other data
    for _ in 0..3 {
        let n = if rng.bool() { gen::leaf(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 300) };
        let v = value_bytes(&n);
        let mut b = v.clone();
        let after = 1 + rng.us(20);
        b.extend(rng.bytes(after));
        let k = rng.us(SOURCES);
        let mut t = f.create_tag(n.id).expect("the factory knows the id");
        let (r, p) = with_source(k, &b, &mut rng, &mut |r| t.deserialize_value(&f, v.len(), r));
        ck!(r.is_ok(), "{}: the value of {} in front of other data: {:?}", source_name(k), n.brief(), r.err());
        ck!(observe(t.as_ref()) == n, "{}: the value of {} in front of other data is {}", source_name(k), n.brief(), observe(t.as_ref()).brief());
        if let Some(p) = p {
            ck!(p == v.len(), "{}: the value of {} takes {} of its {} bytes", source_name(k), n.brief(), p, v.len());
        }
        c.n("values alone", 1);
    }
    // a slice with anything left over is refused
    let one = &data[..ends[0]];
    ck!(f.from_bytes(one).is_ok(), "a complete slice is refused: {}", hex(one));
    for extra in [1usize, 2, 1 + rng.us(300)] {
        let mut x = one.to_vec();
        match rng.below(3) {
            0 => x.resize(one.len() + extra, 0),
            1 => x.extend(rng.bytes(extra)),
            _ => x.extend_from_slice(one),
        }
        match f.from_bytes(&x) {
            Err(_) => {}
            Ok(t) => return Err(format!("{} with {} bytes left over is accepted as {}", hex(one), x.len() - one.len(), observe(t.as_ref()).brief())),
        }
        c.n("leftovers refused", 1);
    }
    let _ = at;
    // the bytes of a tag end where its size says, also when its payload leaves some unread:
    // such a tag is refused, what it left is never taken for the next tag
    let id = loop {
        let id = gen::custom_id(&mut rng);
        if id > 31 {
            break id;
        }
    };
    let mut reg2 = reg.clone();
    reg2.kinds.insert(id, Kind::PBlob);
    let f2 = factory(&reg2, &mut rng);
    let under = 1 + rng.us(4);
    let next = bytes_of(&gen::small_tree(&mut rng, &cfg, 60));
    let size = under.max(gen::len(&mut rng, 300));
    let mut pay = rng.bytes(size);
    // what is left unread may look like a tag
    if rng.bool() {
        let z = pay.len();
        pay[z - under..].iter_mut().for_each(|b| *b = 0);
    }
    let mut b = bytes_of(&Node { id, v: Val::PBlob(pay) });
    let depth = rng.below(3);
    for _ in 0..depth {
        let mut m = ilint(22);
        enc_ilint(b.len() as u64, &mut m);
        m.extend_from_slice(&b);
        b = m;
    }
    let alone = b.len();
    b.extend_from_slice(&next);
    for k in [0usize, 1 + rng.us(SOURCES - 1), 1 + rng.us(SOURCES - 1)] {
        for into in [false, true] {
            GREED.with(|g| g.set(Greed::Under(under)));
            let (r, _) = with_source(k, &b, &mut rng, &mut |r| {
                if into {
                    let mut t = f2.create_tag(if depth > 0 { 22 } else { id }).expect("the factory knows the id");
                    f2.deserialize_into(r, t.as_mut()).is_ok()
                } else {
                    f2.deserialize(r).is_ok()
                }
            });
            GREED.with(|g| g.set(Greed::Exact));
            ck!(!r, "{}: a tag {} whose payload leaves {} of {} bytes unread is accepted (depth {}): {}", source_name(k), id, under, size, depth, hex(&b));
            c.n("unread payload bytes refused", 1);
        }
    }
    GREED.with(|g| g.set(Greed::Under(under)));
    let r = f2.from_bytes(&b[..alone]).is_ok();
    GREED.with(|g| g.set(Greed::Exact));
    ck!(!r, "from_bytes accepts a tag {} whose payload leaves {} bytes unread: {}", id, under, hex(&b[..alone]));
    Ok(())
}

/// Every number of bytes at which to cut a message of len bytes.
fn cuts(rng: &mut Rng, len: usize, most: usize) -> Vec<usize> {
    if len <= most {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..most / 3).collect();
    v.extend(len - most / 3..len);
    for _ in 0..most / 3 {
        v.push(rng.us(len));
    }
    v
}

/// A large value that ends early, at multiples of the sizes buffers tend to have, counted from the
/// start of the message, of the value and of the text or bytes inside it.
fn large_cuts(c: &mut Ctx, f: &ILStandardTagFactory, cfg: &Cfg) -> R {
    let mut rng = c.rng.fork();
    let size = gen::big_len(&mut rng, 150_000);
    let kind = rng.below(4);
    let mut v = match kind {
        0 | 1 => rng.bytes(size),
        _ => gen::long_text(&mut rng, size).into_bytes(),
    };
    let mut b = match kind {
        0 => vec![16],
        1 => vec![248, 7],
        2 => vec![17],
        _ => {
            let mut i = vec![1, 17];
            enc_ilint(v.len() as u64, &mut i);
            i.extend_from_slice(&v);
            i.extend_from_slice(&[17, 0]);
            v = i;
            vec![31]
        }
    };
    if kind == 1 && (cfg.reg.strict || cfg.reg.kinds.contains_key(&255)) {
        b = vec![16];
    }
    enc_ilint(v.len() as u64, &mut b);
    let head = b.len();
    b.extend_from_slice(&v);
    ck!(f.from_bytes(&b).is_ok(), "a large message is refused: {}", hex(&b));
    for _ in 0..30 {
        let unit = *rng.pick(&[256usize, 512, 1024, 2048, 4096, 4096, 8192, 8192, 16384, 32768, 65536]);
        let from = *rng.pick(&[0usize, head, head, head + 2, head + 4]);
        let k = if rng.one_in(6) { rng.us(b.len()) } else { from + unit * rng.us(b.len() / unit + 1) };
        let k = if rng.one_in(4) { gen::near(&mut rng, k as u64, 2) as usize } else { k };
        if k >= b.len() {
            continue;
        }
        let p = &b[..k];
        let (s, r) = (rng.us(SOURCES), rng.us(ROUTES));
        let (t, _) = decode_on(f, s, p, &mut rng);
        ck!(t.is_err(), "deserialize from {} accepts {} of {} bytes of a large message: {}", source_name(s), k, b.len(), hex(&b));
        ck!(decode_by(f, r, p, &mut rng).is_err(), "{} accepts {} of {} bytes of a large message: {}", route_name(r), k, b.len(), hex(&b));
        // the value of a tag that is there, and of a header that has been read
        let mut src = Frag::new(p, 100_000, 0, rng.fork());
        let mut rd = ReadReader::new(&mut src);
        ck!(f.deserialize(&mut rd).is_err(), "a stream that ends at {} of {} bytes of a large message is accepted: {}", k, b.len(), hex(&b));
        let mut src = std::io::Cursor::new(p);
        let mut rd = ReadReader::new(&mut src);
        ck!(f.deserialize(&mut rd).is_err(), "a stream that ends at {} of {} bytes of a large message is accepted: {}", k, b.len(), hex(&b));
        if k >= head {
            let mut raw = ILRawTag::new(1000);
            let mut src = std::io::Cursor::new(&p[head..]);
            let mut rd = ReadReader::new(&mut src);
            ck!(raw.deserialize_value(f, v.len(), &mut rd).is_err(), "{} of the {} bytes of a value are accepted", k - head, v.len());
            let mut src = std::io::Cursor::new(&p[head..]);
            let mut rd = ReadReader::new(&mut src);
            ck!(rd.deserialize_bytes(v.len()).is_err(), "{} of {} bytes are read", k - head, v.len());
            let mut into = vec![0; v.len()];
            let mut src = std::io::Cursor::new(&p[head..]);
            let mut rd = ReadReader::new(&mut src);
            ck!(rd.read_all(&mut into).is_err(), "{} of {} bytes are read by read_all", k - head, v.len());
        }
        c.n("large cuts refused", 1);
    }
    Ok(())
}

/// A value that ends early where the size of the tag says so too: what is missing is part of the
/// content. Only the model can tell whether the shorter value is one.
fn redeclared(c: &mut Ctx, f: &ILStandardTagFactory, reg: &Registry, cfg: &Cfg) -> R {
    let mut rng = c.rng.fork();
    for _ in 0..if c.interp { 1 } else { 4 } {
        let n = if rng.bool() { gen::leaf(&mut rng, cfg) } else { gen::small_tree(&mut rng, cfg, 120) };
        if n.id < 16 {
            continue;
        }
        let v = if rng.one_in(6) {
            // the padded forms of the numbers inside are longer
            let p = gen::padded(&mut rng, &Node { id: 22, v: Val::Seq(vec![n.clone()]) });
            let mut at = 0;
            for _ in 0..3 {
                match dec_ilint(&p[at..]) {
                    Ok((_, k)) => at += k,
                    Err(_) => break,
                }
            }
            // (header of the sequence, and the id of the tag)
            match dec_ilint(&p[at..]) {
                Ok((_, k)) => p[at + k..].to_vec(),
                Err(_) => value_bytes(&n),
            }
        } else {
            value_bytes(&n)
        };
        for k in cuts(&mut rng, v.len(), if c.interp { 4 } else { 40 }) {
            let mut b = ilint(n.id);
            enc_ilint(k as u64, &mut b);
            b.extend_from_slice(&v[..k]);
            let after = v[k..].to_vec();
            for _ in 0..rng.below(3) {
                let (id, pre): (u64, &[u8]) = *rng.pick(&[(22u64, &[][..]), (21, &[1][..]), (21, &[2, 0][..]), (30, &[1, 17, 1, b'k'][..])]);
                let mut m = ilint(id);
                enc_ilint((pre.len() + b.len()) as u64, &mut m);
                m.extend_from_slice(pre);
                m.extend_from_slice(&b);
                b = m;
            }
            let want = dec_all(reg, &b).map(|d| d.node);
            let r = rng.us(ROUTES);
            agree(&route_name(r), &b, &want, &decode_by(f, r, &b, &mut rng))?;
            // what is missing follows
            let mut more = b.clone();
            more.extend_from_slice(&after);
            let s = rng.us(SOURCES);
            let (got, _) = decode_on(f, s, &more, &mut rng);
            agree(source_name(s), &more, &want, &got)?;
            c.n(if want.is_ok() { "shorter values that are values" } else { "shorter values refused" }, 1);
        }
    }
    Ok(())
}

pub fn c13(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let n = if rng.one_in(6) { gen::tree(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 300) };
    let b = if rng.one_in(6) { gen::padded(&mut rng, &n) } else { bytes_of(&n) };
    c.case(fnv(&b));
    c.sample(|| format!("{} cut at every byte", hex(&b)));
    let most = if c.interp { 5 } else if b.len() > 20_000 { 30 } else { 120 };
    for k in cuts(&mut rng, b.len(), most) {
        let p = &b[..k];
        let s = rng.us(ROUTES);
        for r in [0, 1, s] {
            if let Ok(t) = decode_by(&f, r, p, &mut rng) {
                return Err(format!("{} accepts {} of the {} bytes of {} as {}", route_name(r), k, b.len(), n.brief(), observe(t.as_ref()).brief()));
            }
            c.n("cuts refused", 1);
        }
        // a stream that ends there without leftovers being checked
        let (r, _) = decode_on(&f, s % SOURCES, p, &mut rng);
        ck!(r.is_err(), "deserialize from {} accepts {} of the {} bytes of {}", source_name(s % SOURCES), k, b.len(), n.brief());
        // an existing tag
        let mut t = build(&n, &mut rng);
        let (r, _) = with_source(s % SOURCES, p, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
        ck!(r.is_err(), "deserialize_into from {} accepts {} of the {} bytes of {}", source_name(s % SOURCES), k, b.len(), n.brief());
        // cut inside a correctly sized parent
        if k >= 1 {
            let parents: [(u8, &[u8], &[u8]); 5] = [
                (22, &[], &[]),
                (21, &[1], &[]),
                (21, &[2, 0], &[]),
                (30, &[1, 17, 1, b'k'], &[]),
                (22, &[3, 9], &[]),
            ];
            let (id, pre, post) = parents[rng.us(5)];
            let depth = 1 + rng.us(3);
            let mut inner = p.to_vec();
            for d in 0..depth {
                let (i, a, z) = if d == 0 { (id, pre, post) } else { (22, &[][..], &[][..]) };
                let mut m = vec![i];
                enc_ilint((a.len() + inner.len() + z.len()) as u64, &mut m);
                m.extend_from_slice(a);
                m.extend_from_slice(&inner);
                m.extend_from_slice(z);
                inner = m;
            }
            // something after the parent that must not be borrowed
            let clean = inner.len();
            inner.extend_from_slice(&b[k..]);
            let std = !rng.bool();
            let (r, _) = decode_on(&f, if std { 0 } else { rng.us(SOURCES) }, &inner, &mut rng);
            if let Ok(t) = r {
                return Err(format!("a tag cut at {} of {} inside a parent is accepted: {} as {}", k, b.len(), hex(&inner), observe(t.as_ref()).brief()));
            }
            ck!(f.from_bytes(&inner[..clean]).is_err(), "a cut tag inside a parent is accepted: {}", hex(&inner[..clean]));
            c.n("nested cuts refused", 1);
        }
    }
    if c.index % 4 == 0 {
        large_cuts(c, &f, &cfg)?;
    }
    redeclared(c, &f, &reg, &cfg)?;
    // several tags: the stream ends inside the last one
    let m = gen::small_tree(&mut rng, &cfg, 100);
    let bm = bytes_of(&m);
    let mut two = bytes_of(&n);
    let first = two.len();
    two.extend_from_slice(&bm);
    let k = first + rng.us(bm.len());
    let mut s = Frag::new(&two[..k], 7, 3, rng.fork());
    let mut r = ReadReader::new(&mut s);
    let x = f.deserialize(&mut r);
    ck!(x.is_ok(), "the first tag of a truncated stream is lost: {:?}", x.err());
    ck!(f.deserialize(&mut r).is_err(), "a truncated second tag is accepted");
    Ok(())
}
