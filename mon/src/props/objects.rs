//! C15-C18, C26-C29: dictionaries, factories, reuse, equality, threads, payloads, downcasts, setters.
use crate::bridge::*;
use crate::ck;
use crate::ctx::*;
use crate::for_all_types;
use crate::gen::{self, Cfg};
use crate::iomon::*;
use crate::model::*;
use crate::props::trees::note;
use crate::rng::{fnv, mix, Rng};
use il2_iltags::io::array::*;
use il2_iltags::io::{ErrorKind as IE, Reader, Writer};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------- C15

/// A pool of keys close to each other, so that histories meet the same key again.
fn key_pool(rng: &mut Rng, n: usize) -> Vec<String> {
    let fixed = [
        "", "a", "aa", "ab", "b", "B", "é", "e\u{301}", "z", "\0", "a\0", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}",
        "\u{ffff}", "\u{10000}", "\u{10ffff}", "10", "9", "key", "Key", "KEY", "key ", " key",
    ];
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(match rng.below(4) {
            0 => rng.pick(&fixed).to_string(),
            1 => format!("k{}", rng.below(n as u64 + 1)),
            _ => gen::key(rng),
        });
    }
    v
}

fn dict_bytes(id: u64, m: &BTreeMap<Vec<u8>, Node>) -> Vec<u8> {
    bytes_of(&Node { id, v: Val::Dict(m.clone()) })
}

pub fn c15(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg { reg: &reg, max_payload: 12, raw_one_in: 8 };
    let big = c.index % 10 == 3 && !c.interp;
    let n = if c.interp { 6 } else if big { *rng.pick(&[246usize, 247, 248, 249, 300, 504, 505, 900]) } else { rng.us(40) };
    // general dictionary
    {
        let id = if rng.bool() { 30 } else { gen::custom_id(&mut rng) };
        let mut d = if id == 30 { ILDictTag::new() } else { ILDictTag::with_id(id) };
        let mut m: BTreeMap<Vec<u8>, Node> = BTreeMap::new();
        let pool = key_pool(&mut rng, (n / 2).max(3));
        let steps = if big { n } else { n + 5 };
        let mut k = 0;
        for s in 0..steps {
            let key = if big {
                k += 1;
                format!("{}{}", k * 7919 % 1000, k)
            } else {
                rng.pick(&pool).clone()
            };
            let kb = key.clone().into_bytes();
            match rng.below(if big { 4 } else { 12 }) {
                0..=4 => {
                    let x = gen::leaf(&mut rng, &cfg);
                    let t = build(&x, &mut rng);
                    let r = d.insert(&key, t).map(|t| observe(t.as_ref()));
                    let o = m.insert(kb, x);
                    ck!(r == o, "insert({:?}) gives {:?} instead of the entry replaced", key, r);
                }
                5 | 6 => {
                    let r = d.mut_value().remove(&key).map(|t| observe(t.as_ref()));
                    let o = m.remove(&kb);
                    ck!(r == o, "removing {:?} gives {:?} instead of {:?}", key, r, o);
                }
                7 => {
                    let x = gen::leaf(&mut rng, &cfg);
                    let t = build(&x, &mut rng);
                    d.mut_value().insert(key.clone(), t);
                    m.insert(kb, x);
                }
                8 => {
                    let r = d.get(&key).map(observe);
                    ck!(r.as_ref() == m.get(&kb), "get({:?}) gives {:?}", key, r);
                    c.n(if r.is_some() { "lookups that find" } else { "lookups that do not" }, 1);
                }
                9 if s > 10 && rng.one_in(10) => {
                    d.mut_value().clear();
                    m.clear();
                }
                10 => {
                    if let Some(t) = d.mut_value().get_mut(&key) {
                        let x = m.get_mut(&kb).ok_or("an entry nobody inserted")?;
                        let fresh = |r: &mut Rng| Node { id: 3, v: Val::U8(r.u64() as u8) };
                        touch(&mut rng, x, t.as_mut(), &fresh);
                    }
                }
                _ => {
                    let b = ser(&d)?;
                    let want = dict_bytes(id, &m);
                    ck!(b == want, "after {} operations a dictionary of {} entries is wrong: {}", s, m.len(), diff(&want, &b));
                    c.n("serializations", 1);
                }
            }
            ck!(d.len() == m.len() && d.is_empty() == m.is_empty(), "a dictionary of {} entries says {}", m.len(), d.len());
            c.n("operations", 1);
        }
        let want = dict_bytes(id, &m);
        c.case(fnv(&want));
        c.sample(|| format!("{} entries after {} operations: {}", m.len(), steps, hex(&want)));
        c.max("most entries", m.len() as u64);
        ck!(ser(&d)? == want, "a dictionary of {} entries is wrong: {}", m.len(), diff(&want, &ser(&d)?));
        ck!(d.size() == want.len() as u64, "the size of a dictionary of {} entries is {}", m.len(), d.size());
        for (k, x) in &m {
            let k = std::str::from_utf8(k).unwrap();
            let t = d.get(k).ok_or_else(|| format!("the entry {:?} is lost", k))?;
            ck!(observe(t) == *x, "the entry {:?} is {} instead of {}", k, observe(t).brief(), x.brief());
        }
        // other orders, other routes, other instances: the same bytes
        for _ in 0..2 {
            let t = build(&Node { id, v: Val::Dict(m.clone()) }, &mut rng);
            ck!(ser(t.as_ref())? == want, "the order of insertion changes the bytes: {}", diff(&want, &ser(t.as_ref())?));
            let mut e: Vec<_> = m.iter().collect();
            rng.shuffle(&mut e);
            let mut d2 = ILDictTag::with_id(id);
            for (k, x) in &e {
                // replaced on the way
                let k = std::str::from_utf8(k).unwrap();
                if rng.bool() {
                    d2.insert(k, Box::new(ILNullTag::new()));
                }
                d2.insert(k, build(x, &mut rng));
            }
            let b2 = ser(&d2)?;
            ck!(b2 == want, "the order of insertion changes the bytes: {}", diff(&want, &b2));
            ck!(iltag_are_equal(&d2, &d), "dictionaries with the same entries differ");
            c.n("orders compared", 2);
        }
        // entries in any order, some more than once, are read and written in order
        if reg.kinds.get(&id) == Some(&Kind::Dict) || id == 30 {
            let mut v = vec![];
            let mut e: Vec<_> = m.iter().map(|(k, x)| (k.clone(), x.clone())).collect();
            rng.shuffle(&mut e);
            let mut twice = 0;
            if let Some((k, _)) = e.get(0).cloned() {
                if rng.bool() {
                    e.insert(0, (k, gen::leaf(&mut rng, &cfg)));
                    twice = 1;
                }
            }
            enc_ilint(e.len() as u64, &mut v);
            for (k, x) in &e {
                enc_str_tag(k, &mut v);
                enc_node(x, &mut v);
            }
            let mut b = ilint(id);
            enc_ilint(v.len() as u64, &mut b);
            b.extend_from_slice(&v);
            let t = f.from_bytes(&b).map_err(|e| format!("a dictionary in another order is refused: {:?} ({})", e, hex(&b)))?;
            ck!(observe(t.as_ref()) == Node { id, v: Val::Dict(m.clone()) }, "entries are lost ({} repeated): {}", twice, hex(&b));
            ck!(ser(t.as_ref())? == want, "re-serialized out of order: {}", diff(&want, &ser(t.as_ref())?));
            c.n("shuffled messages", 1);
        }
    }
    // string dictionary
    let id = if rng.bool() { 31 } else { gen::custom_id(&mut rng) };
    let mut d = if id == 31 { ILStrDictTag::new() } else { ILStrDictTag::with_id(id) };
    let mut m: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let pool = key_pool(&mut rng, (n / 2).max(3));
    let mut k = 0;
    for s in 0..n + 5 {
        let key = if big {
            k += 1;
            format!("{}{}", k * 7919 % 1000, k)
        } else {
            rng.pick(&pool).clone()
        };
        let kb = key.clone().into_bytes();
        match rng.below(if big { 4 } else { 11 }) {
            0..=4 => {
                let x = gen::string(&mut rng, 20);
                let r = d.insert(&key, &x);
                let o = m.insert(kb, x);
                ck!(r == o, "insert({:?}) gives {:?} instead of {:?}", key, r, o);
            }
            5 | 6 => {
                let r = d.mut_value().remove(&key);
                let o = m.remove(&kb);
                ck!(r == o, "removing {:?} gives {:?} instead of {:?}", key, r, o);
            }
            7 => {
                let r = d.get(&key);
                ck!(r == m.get(&kb).map(|x| x.as_str()), "get({:?}) gives {:?}", key, r);
                c.n(if r.is_some() { "lookups that find" } else { "lookups that do not" }, 1);
            }
            8 if s > 10 && rng.one_in(10) => {
                d.mut_value().clear();
                m.clear();
            }
            9 => {
                if let Some(x) = d.mut_value().get_mut(&key) {
                    x.push('+');
                    m.get_mut(&kb).ok_or("an entry nobody inserted")?.push('+');
                }
            }
            _ => {
                let b = ser(&d)?;
                let want = bytes_of(&Node { id, v: Val::StrDict(m.clone()) });
                ck!(b == want, "after {} operations a string dictionary of {} entries is wrong: {}", s, m.len(), diff(&want, &b));
                c.n("serializations", 1);
            }
        }
        ck!(d.len() == m.len() && d.is_empty() == m.is_empty(), "a string dictionary of {} entries says {}", m.len(), d.len());
        c.n("operations", 1);
    }
    let want = bytes_of(&Node { id, v: Val::StrDict(m.clone()) });
    c.case(fnv(&want));
    ck!(ser(&d)? == want, "a string dictionary of {} entries is wrong: {}", m.len(), diff(&want, &ser(&d)?));
    ck!(d.size() == want.len() as u64, "the size of a string dictionary of {} entries is {}", m.len(), d.size());
    for (k, x) in &m {
        let k = std::str::from_utf8(k).unwrap();
        ck!(d.get(k) == Some(x.as_str()), "the entry {:?} is {:?} instead of {:?}", k, d.get(k), x);
    }
    // the same content in a general dictionary
    let g: BTreeMap<Vec<u8>, Node> = m.iter().map(|(k, x)| (k.clone(), Node { id: 17, v: Val::Str(x.clone()) })).collect();
    let t = build(&Node { id, v: Val::Dict(g.clone()) }, &mut rng);
    ck!(ser(t.as_ref())? == want, "a dictionary of the same strings is written differently: {}", diff(&want, &ser(t.as_ref())?));
    let (fd, fs) = {
        let mut a = Registry::standard(true);
        let mut b = Registry::standard(true);
        a.kinds.insert(id, Kind::Dict);
        b.kinds.insert(id, Kind::StrDict);
        (factory(&a, &mut rng), factory(&b, &mut rng))
    };
    let x = fd.from_bytes(&want).map_err(|e| format!("a general dictionary cannot read a string dictionary: {:?}", e))?;
    ck!(observe(x.as_ref()) == Node { id, v: Val::Dict(g) }, "a string dictionary is read differently as a general one: {}", hex(&want));
    let x = fs.from_bytes(&ser(t.as_ref())?).map_err(|e| format!("a string dictionary cannot read a dictionary of strings: {:?}", e))?;
    ck!(observe(x.as_ref()) == Node { id, v: Val::StrDict(m.clone()) }, "a dictionary of strings is read differently as a string dictionary: {}", hex(&want));
    c.n("cross-read dictionaries", 2);
    Ok(())
}

// ---------------------------------------------------------------- C16

thread_local! {
    static MADE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A creator that can be told apart from every other.
struct Token {
    token: u64,
    inner: Box<dyn ILTagCreator>,
}

impl ILTagCreator for Token {
    fn create_empty_tag(&self, id: u64) -> Tag {
        MADE.with(|m| m.set(self.token));
        self.inner.create_empty_tag(id)
    }
}

fn made() -> u64 {
    MADE.with(|m| m.replace(0))
}

/// A kind that can live under this id.
fn kind_for(rng: &mut Rng, id: u64) -> Kind {
    match id {
        0 => Kind::Null,
        10 | 14 => *rng.pick(&[Kind::ILInt, Kind::SILInt]),
        1 | 2 | 3 => *rng.pick(&[Kind::Bool, Kind::I8, Kind::U8, Kind::PBlob]),
        4 | 5 => *rng.pick(&[Kind::I16, Kind::U16, Kind::PBlob]),
        6 | 7 | 11 => *rng.pick(&[Kind::I32, Kind::U32, Kind::F32, Kind::PBlob]),
        8 | 9 | 12 => *rng.pick(&[Kind::I64, Kind::U64, Kind::F64, Kind::PBlob]),
        13 => *rng.pick(&[Kind::B128, Kind::Version, Kind::PBlob]),
        15 => Kind::Null,
        _ => gen::any_kind(rng),
    }
}

fn value_for(rng: &mut Rng, id: u64, k: Kind) -> Node {
    let v = match (k, implicit_size(id)) {
        (Kind::PBlob, Some(n)) if id < 16 => Val::PBlob(rng.bytes(n)),
        (Kind::TagArr, _) => Val::TagArr(vec![Node { id: 100_000, v: Val::Raw(vec![1]) }; 0]),
        (k, _) => gen::leaf_val(rng, k, 40),
    };
    Node { id, v }
}

struct World {
    f: ILStandardTagFactory,
    reg: Registry,
    tokens: BTreeMap<u64, u64>,
}

fn check_create(c: &mut Ctx, w: &World, t: Option<Tag>, id: u64, log: &str) -> R {
    match (w.reg.kind_of(id), t) {
        (None, None) => c.n("unknown ids not created", 1),
        (Some(k), Some(t)) => {
            ck!(t.id() == id, "create_tag({}) gives a tag {} after{}", id, t.id(), log);
            ck!(kind_of(t.as_ref()) == Some(k), "create_tag({}) gives a {:?} instead of {:?} after{}", id, kind_of(t.as_ref()), k, log);
            let token = w.tokens.get(&id).cloned().unwrap_or(0);
            let m = made();
            ck!(m == token, "create_tag({}) used creator {} instead of {} after{}", id, m, token, log);
            c.n("tags created", 1);
        }
        (k, t) => return Err(format!("create_tag({}): expected {:?}, got {:?} after{}", id, k, t.map(|t| kind_of(t.as_ref())), log)),
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut ws: Vec<World> = vec![];
    for i in 0..2 {
        let strict = rng.bool() ^ (i == 1);
        ws.push(World { f: ILStandardTagFactory::new(strict), reg: Registry::standard(strict), tokens: BTreeMap::new() });
    }
    // and an engine that starts empty
    let strict = rng.bool();
    let mut eng = ILTagCreatorEngine::new(strict);
    let mut ereg = Registry { strict, kinds: BTreeMap::new() };
    let mut etok: BTreeMap<u64, u64> = BTreeMap::new();
    let ids: Vec<u64> = (0..6)
        .map(|_| match rng.below(4) {
            0 => rng.below(16),
            1 => 16 + rng.below(16),
            _ => gen::custom_id(&mut rng),
        })
        .collect();
    let mut next = 0u64;
    let mut log = String::new();
    let _ = made();
    let steps = if c.interp { 12 } else { 60 };
    for _ in 0..steps {
        let id = if rng.one_in(8) { gen::u64_any(&mut rng) } else { *rng.pick(&ids) };
        let wi = rng.us(3);
        let k = kind_for(&mut rng, id);
        if log.len() > 1500 {
            log = log.split_off(log.char_indices().nth(700).map(|x| x.0).unwrap_or(0));
        }
        match rng.below(7) {
            0 | 1 => {
                next += 1;
                let token = next;
                let cr = Box::new(Token { token, inner: creator(k, &mut rng, id) });
                log.push_str(&format!(" register({}, {:?}: {})", id, k, token));
                let (r, old, oldtok) = if wi == 2 {
                    (eng.register(id, cr), ereg.kinds.insert(id, k), etok.insert(id, token))
                } else {
                    let w = &mut ws[wi];
                    (w.f.engine().register(id, cr), w.reg.kinds.insert(id, k), w.tokens.insert(id, token))
                };
                displaced(c, r, id, old, oldtok, &log)?;
                c.n("registrations", 1);
            }
            2 => {
                log.push_str(&format!(" deregister({})", id));
                let (r, old, oldtok) = if wi == 2 {
                    (eng.deregister(id), ereg.kinds.remove(&id), etok.remove(&id))
                } else {
                    let w = &mut ws[wi];
                    (w.f.engine().deregister(id), w.reg.kinds.remove(&id), w.tokens.remove(&id))
                };
                displaced(c, r, id, old, oldtok, &log)?;
                c.n("removals", 1);
            }
            3 => {
                if wi == 2 {
                    ck!(eng.strict() == ereg.strict, "the engine forgot whether it is strict");
                    let t = eng.create_tag(id);
                    match (ereg.kind_of(id), &t) {
                        (None, None) => {}
                        (Some(k), Some(t)) => {
                            ck!(t.id() == id && kind_of(t.as_ref()) == Some(k), "the engine creates {:?} (id {}) for {} after{}", kind_of(t.as_ref()), t.id(), id, log);
                            ck!(made() == etok.get(&id).cloned().unwrap_or(0), "the engine used another creator for {} after{}", id, log);
                        }
                        (k, t) => return Err(format!("the engine creates {:?} instead of {:?} for {} after{}", t.as_ref().map(|t| kind_of(t.as_ref())), k, id, log)),
                    }
                    c.n("tags created", 1);
                } else {
                    let t = ws[wi].f.create_tag(id);
                    check_create(c, &ws[wi], t, id, &log)?;
                }
            }
            _ => {
                if wi == 2 || id == 15 {
                    continue;
                }
                let w = &mut ws[wi];
                let known = w.reg.kinds.get(&id).cloned();
                let kind = match known {
                    Some(k) => k,
                    None if id < 16 => kind_for(&mut rng, id),
                    None => Kind::Raw,
                };
                let n = value_for(&mut rng, id, kind);
                if let Val::PNest(_) = n.v {
                    if w.reg.kinds.get(&0) != Some(&Kind::Null) {
                        continue;
                    }
                }
                let b = bytes_of(&n);
                c.case(fnv(&b) ^ mix(next));
                let route = rng.us(ROUTES);
                let route = if route == 1 { 0 } else { route };
                let _ = made();
                let r = decode_by(&w.f, route, &b, &mut rng);
                let m = made();
                match (w.reg.kind_of(id), r) {
                    (None, Err(TErr::UnknownTag)) => c.n("unknown tags refused", 1),
                    (Some(k), Ok(t)) => {
                        ck!(kind_of(t.as_ref()) == Some(k), "tag {} is decoded as {:?} instead of {:?} after{}", id, kind_of(t.as_ref()), k, log);
                        ck!(observe(t.as_ref()) == n, "tag {} is decoded as {} after{}", id, observe(t.as_ref()).brief(), log);
                        let b2 = ser(t.as_ref())?;
                        ck!(b2 == b, "tag {} ({:?}) is written back differently: {}", id, k, diff(&b, &b2));
                        if known.is_some() {
                            let token = w.tokens.get(&id).cloned().unwrap_or(0);
                            ck!(m == token || kind == Kind::PNest, "tag {} was made by creator {} instead of {} after{}", id, m, token, log);
                            c.n("known tags decoded", 1);
                        } else {
                            c.n("unknown tags preserved", 1);
                        }
                        // below other tags too, if those still are what they were
                        if w.reg.kinds.get(&22) == Some(&Kind::Seq) {
                            let p = Node { id: 22, v: Val::Seq(vec![n.clone(), n.clone()]) };
                            let t = w.f.from_bytes(&bytes_of(&p)).map_err(|e| format!("{} below a sequence is refused: {:?}", n.brief(), e))?;
                            ck!(observe(t.as_ref()) == p, "{} below a sequence is decoded as {}", n.brief(), observe(t.as_ref()).brief());
                            ck!(ser(t.as_ref())? == bytes_of(&p), "{} below a sequence is written back differently", n.brief());
                            let _ = made();
                            c.n("nested tags decoded", 1);
                        }
                    }
                    (k, r) => return Err(format!("decoding {} (strict {}): expected {:?}, got {} after{}", n.brief(), w.reg.strict, k, show(&r.map(|t| observe(t.as_ref()))), log)),
                }
            }
        }
    }
    // large values make no difference
    if c.index % 3 == 0 && !c.interp {
        for w in &mut ws {
            let k = gen::big_len(&mut rng, 200_000);
            let any: Vec<u64> = w.reg.kinds.keys().cloned().filter(|i| *i > 15).collect();
            let mut id = if rng.bool() { *rng.pick(&ids) } else { *rng.pick(&any) };
            if rng.bool() {
                id = gen::custom_id(&mut rng);
                let kind = *rng.pick(&[Kind::Str, Kind::BigDec, Kind::Raw, Kind::PBlob, Kind::PRec]);
                next += 1;
                w.f.engine().register(id, Box::new(Token { token: next, inner: creator(kind, &mut rng, id) }));
                w.reg.kinds.insert(id, kind);
                w.tokens.insert(id, next);
            }
            if id < 16 {
                continue;
            }
            let known = w.reg.kinds.get(&id).cloned();
            let v = match known {
                Some(Kind::Bytes) => Val::Bytes(rng.bytes(k)),
                Some(Kind::Str) => Val::Str((0..k).map(|_| (32 + rng.below(90) as u8) as char).collect()),
                Some(Kind::BigInt) => Val::BigInt(rng.bytes(k)),
                Some(Kind::BigDec) => Val::BigDec(rng.u64() as i32, rng.bytes(k)),
                Some(Kind::PBlob) => Val::PBlob(rng.bytes(k)),
                Some(Kind::PRec) => Val::PRec(7, 8, rng.bytes(k)),
                Some(Kind::Raw) | None => Val::Raw(rng.bytes(k)),
                _ => continue,
            };
            let n = Node { id, v };
            let b = bytes_of(&n);
            let _ = made();
            let r = decode_by(&w.f, 0, &b, &mut rng);
            let m = made();
            match (w.reg.kind_of(id), r) {
                (None, Err(TErr::UnknownTag)) => {}
                (Some(kind), Ok(t)) => {
                    ck!(kind_of(t.as_ref()) == Some(kind), "tag {} of {} bytes is decoded as {:?} instead of {:?} after{}", id, b.len(), kind_of(t.as_ref()), kind, log);
                    ck!(observe(t.as_ref()) == n, "tag {} of {} bytes is decoded as {}", id, b.len(), observe(t.as_ref()).brief());
                    ck!(known.is_none() || m == w.tokens.get(&id).cloned().unwrap_or(0), "tag {} of {} bytes was made by creator {}", id, b.len(), m);
                    ck!(ser(t.as_ref())? == b, "tag {} of {} bytes is written back differently", id, b.len());
                }
                (k, r) => return Err(format!("decoding {} (strict {}): expected {:?}, got {} after{}", n.brief(), w.reg.strict, k, show(&r.map(|t| observe(t.as_ref()))), log)),
            }
            c.n("large tags decoded", 1);
        }
    }
    // everything else is still there
    for w in &ws {
        for (id, k) in STD_KINDS {
            if w.reg.kinds.get(&id) == Some(&k) && !w.tokens.contains_key(&id) {
                let t = w.f.create_tag(id).ok_or_else(|| format!("the standard tag {} is gone", id))?;
                ck!(t.id() == id && kind_of(t.as_ref()) == Some(k), "the standard tag {} became {:?}", id, kind_of(t.as_ref()));
            }
        }
    }
    c.sample(|| log.clone());
    // the standard engine on its own
    if c.index % 16 == 0 {
        for strict in [false, true] {
            let e = il2_iltags::tags::standard::factory::create_std_engine(strict);
            ck!(e.strict() == strict, "create_std_engine({}) is {}", strict, e.strict());
            let r = Registry::standard(strict);
            for id in 0..70u64 {
                let k = e.create_tag(id).map(|t| (t.id(), kind_of(t.as_ref())));
                let want = r.kind_of(id).map(|k| (id, Some(k)));
                ck!(k == want, "the standard engine (strict {}) has {:?} for {} instead of {:?}", strict, k, id, want);
            }
        }
    }
    Ok(())
}

fn displaced(c: &mut Ctx, r: Option<Box<dyn ILTagCreator>>, id: u64, old: Option<Kind>, token: Option<u64>, log: &str) -> R {
    match (r, old) {
        (None, None) => {}
        (Some(cr), Some(k)) => {
            let _ = made();
            let t = cr.create_empty_tag(id);
            let m = made();
            ck!(kind_of(t.as_ref()) == Some(k) && t.id() == id, "the creator returned for {} makes {:?} instead of {:?}:{}", id, kind_of(t.as_ref()), k, log);
            ck!(m == token.unwrap_or(0), "creator {} was returned for {} instead of {:?}:{}", m, id, token, log);
            c.n("displaced creators identified", 1);
        }
        (r, o) => return Err(format!("for {} a creator was returned: {}; one was registered: {:?}:{}", id, r.is_some(), o, log)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn c17(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let max = if c.interp { 10 } else { *rng.pick(&[3usize, 20, 300, 600]) };
    let sm = Cfg { reg: &reg, max_payload: max, raw_one_in: 8 };
    // two values of the same tag
    let like = |rng: &mut Rng, n: &Node| -> Node {
        for _ in 0..60 {
            let m = if n.children().is_empty() && rng.bool() { gen::leaf(rng, &sm) } else { gen::small_tree(rng, &sm, 3000) };
            if m.kind() == n.kind() {
                // (raw tags of other ids are as good)
                return Node { id: n.id, v: m.v };
            }
        }
        match n.kind() {
            Kind::TagArr | Kind::Seq | Kind::Dict | Kind::PNest => {
                let l = gen::leaf(rng, &sm);
                let v = match n.kind() {
                    Kind::TagArr => Val::TagArr(vec![l]),
                    Kind::Seq => Val::Seq(vec![]),
                    Kind::Dict => Val::Dict([(b"k".to_vec(), l)].into_iter().collect()),
                    _ => Val::PNest(Box::new(l)),
                };
                Node { id: n.id, v }
            }
            k => Node { id: n.id, v: gen::leaf_val(rng, k, max) },
        }
    };
    let n = if rng.one_in(3) { gen::leaf(&mut rng, &sm) } else { gen::small_tree(&mut rng, &sm, 3000) };
    note(c, &n);
    let mut t = build(&n, &mut rng);
    let mut cur = Some(n.clone());
    let mut log = format!("{}", n.brief());
    for _ in 0..if c.interp { 3 } else { 14 } {
        let m = match &cur {
            Some(held) if rng.one_in(3) => {
                let mut m = held.clone();
                gen::nudge(&mut rng, &mut m);
                c.n("almost the same decoded over", 1);
                m
            }
            _ => like(&mut rng, &n),
        };
        let b = bytes_of(&m);
        c.case(fnv(&b) ^ mix(fnv(log.as_bytes())));
        let k = rng.us(SOURCES);
        match rng.below(5) {
            0 | 1 => {
                let (r, p) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                log.push_str(&format!(" <- {}", m.brief()));
                ck!(r.is_ok(), "{} cannot be decoded into a tag with the history {}: {:?}", hex(&b), log, r.err());
                if let Some(p) = p {
                    ck!(p == b.len(), "decoding {} into a tag took {} bytes", hex(&b), p);
                }
                let o = observe(t.as_ref());
                ck!(o == m, "a tag with the history {} holds {} ({})", log, o.brief(), source_name(k));
                let b2 = ser(t.as_ref())?;
                ck!(b2 == b, "a tag with the history {} is written as {}", log, diff(&b, &b2));
                ck!(t.size() == b.len() as u64, "a tag with the history {} says {} bytes", log, t.size());
                cur = Some(m);
                c.n("decodes into used tags", 1);
            }
            2 => {
                // an attempt that fails, or does not
                let mut x = b.clone();
                match rng.below(3) {
                    0 => {
                        let j = rng.us(x.len());
                        x.truncate(j)
                    }
                    1 => x = gen::tweaked(&mut rng, &m),
                    _ => gen::mutate(&mut rng, &mut x, &b),
                }
                let (fresh, _) = decode_on(&f, k, &x, &mut rng);
                let (r, _) = with_source(k, &x, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                let same_id = dec_ilint(&x).map(|i| i.0 == n.id).unwrap_or(false);
                if same_id {
                    match (&fresh, &r) {
                        (Ok(q), Ok(())) => {
                            let (a, o) = (observe(q.as_ref()), observe(t.as_ref()));
                            ck!(a == o, "{} decoded into a tag with the history {} gives {} instead of {}", hex(&x), log, o.brief(), a.brief());
                            cur = Some(a);
                            c.n("damaged messages accepted alike", 1);
                        }
                        (Err(_), Err(_)) => {
                            cur = None;
                            c.n("failed attempts", 1);
                        }
                        _ => return Err(format!("{}: a new tag gives {:?}, a tag with the history {} gives {:?}", hex(&x), fresh.as_ref().map(|_| ()), log, r)),
                    }
                    log.push_str(&format!(" <- {}", hex(&x)));
                } else if let Some(o) = &cur {
                    ck!(r.is_err(), "{} is decoded into a tag {}", hex(&x), n.id);
                    ck!(observe(t.as_ref()) == *o, "a message refused for its id ({}) changed a tag with the history {}: {}", hex(&x), log, observe(t.as_ref()).brief());
                }
            }
            3 => {
                // another id
                let mut o = gen::small_tree(&mut rng, &cfg, 300);
                if rng.bool() && n.id > 15 && id_free(n.kind()) {
                    // the same type, another id
                    let mut i = gen::custom_id(&mut rng);
                    if rng.bool() {
                        // a near miss
                        i = n.id ^ (1 << rng.below(64));
                        if i < 32 {
                            i = n.id + 1;
                        }
                    }
                    o = Node { id: i, v: m.v.clone() };
                }
                if o.id == n.id {
                    continue;
                }
                let b = bytes_of(&o);
                let before = cur.clone().unwrap_or_else(|| observe(t.as_ref()));
                let (r, _) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                ck!(matches!(r, Err(TErr::UnexpectedTagType)), "a tag {} decoded into a tag {}: {:?}", o.id, n.id, r);
                ck!(observe(t.as_ref()) == before, "a message with another id changed {} to {}", before.brief(), observe(t.as_ref()).brief());
                c.n("other ids refused", 1);
            }
            _ => {
                if let Some(x) = cur.as_mut() {
                    let fresh = |r: &mut Rng| Node { id: 3, v: Val::U8(r.u64() as u8) };
                    if reg.kinds.get(&3) == Some(&Kind::U8) {
                        touch(&mut rng, x, t.as_mut(), &fresh);
                        log.push_str(" (changed)");
                    }
                }
            }
        }
    }
    c.sample(|| log.clone());
    // the value alone
    let m = like(&mut rng, &n);
    let v = value_bytes(&m);
    let k = rng.us(SOURCES);
    let (r, _) = with_source(k, &v, &mut rng, &mut |r| t.deserialize_value(&f, v.len(), r));
    ck!(r.is_ok(), "the value {} cannot be decoded into a tag with the history {}: {:?}", hex(&v), log, r.err());
    ck!(observe(t.as_ref()) == m, "the value {} decoded into a tag with the history {} gives {}", hex(&v), log, observe(t.as_ref()).brief());
    c.n("values decoded into used tags", 1);
    // helpers that fill something that exists
    for _ in 0..6 {
        let old = gen::bytes(&mut rng, max);
        let new = gen::bytes(&mut rng, max);
        let mut x = old.clone();
        let k = rng.us(SOURCES);
        let (r, _) = with_source(k, &new, &mut rng, &mut |r| r.deserialize_bytes_into_vec(new.len(), &mut x));
        ck!(r.is_ok() && x == new, "{} bytes read into a vector of {} give {}", new.len(), old.len(), diff(&new, &x));
        let old = gen::string(&mut rng, max);
        let new = gen::string(&mut rng, max);
        let mut x = old.clone();
        let mut b = vec![];
        enc_str_tag(new.as_bytes(), &mut b);
        let (r, _) = with_source(k, &b, &mut rng, &mut |r| deserialize_string_tag_from_value_into(r, &mut x));
        ck!(r.is_ok() && x == new, "the string {:?} read into {:?} gives {:?}", new, old, x);
        // after a failure, too
        let j = rng.us(b.len());
        let _ = with_source(k, &b[..j], &mut rng, &mut |r| deserialize_string_tag_from_value_into(r, &mut x));
        let bad = gen::bad_utf8(&mut rng, 20);
        let mut bb = vec![];
        enc_str_tag(&bad, &mut bb);
        let (r, _) = with_source(k, &bb, &mut rng, &mut |r| deserialize_string_tag_from_value_into(r, &mut x));
        ck!(r.is_err(), "bytes that are no text are read into a string");
        let (r, _) = with_source(k, &b, &mut rng, &mut |r| deserialize_string_tag_from_value_into(r, &mut x));
        ck!(r.is_ok() && x == new, "the string {:?} read after failures gives {:?}", new, x);
        c.n("helpers", 2);
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

/// A tree that differs from n in one place.
fn vary(rng: &mut Rng, n: &Node, cfg: &Cfg) -> Node {
    let mut m = n.clone();
    fn go(rng: &mut Rng, n: &mut Node, cfg: &Cfg) {
        let kids = n.children().len();
        if kids > 0 && !rng.one_in(3) {
            let i = rng.us(kids);
            let k = match &mut n.v {
                Val::TagArr(c) | Val::Seq(c) => &mut c[i],
                Val::Dict(m) => m.values_mut().nth(i).unwrap(),
                Val::PNest(x) => x,
                _ => unreachable!(),
            };
            return go(rng, k, cfg);
        }
        match &mut n.v {
            Val::Bytes(v) | Val::BigInt(v) | Val::Raw(v) | Val::PBlob(v) | Val::BigDec(_, v) | Val::PRec(_, _, v) if !v.is_empty() && rng.bool() => match rng.below(4) {
                0 => v.push(0),
                1 => {
                    v.pop();
                }
                2 => *v.last_mut().unwrap() ^= 1,
                _ => {
                    let i = rng.us(v.len());
                    v[i] ^= 1 << rng.below(8);
                }
            },
            Val::TagArr(c) | Val::Seq(c) => match rng.below(3) {
                0 if c.len() > 1 => c.swap(0, 1),
                1 if !c.is_empty() => {
                    c.pop();
                }
                _ => c.push(gen::leaf(rng, cfg)),
            },
            Val::Dict(m) => {
                let k = m.keys().next().cloned();
                match k {
                    Some(k) if rng.bool() => {
                        let x = m.remove(&k).unwrap();
                        let mut k2 = k;
                        k2.push(b'!');
                        m.insert(k2, x);
                    }
                    _ => {
                        m.insert(gen::key(rng).into_bytes(), gen::leaf(rng, cfg));
                    }
                }
            }
            Val::PNest(x) => **x = gen::leaf(rng, cfg),
            v => *v = gen::leaf_val(rng, v.kind(), 20),
        }
        if rng.one_in(5) && n.id > 31 && id_free(n.kind()) {
            n.id = gen::custom_id(rng);
        }
    }
    go(rng, &mut m, cfg);
    m
}

macro_rules! empty_tag {
    ($name:ident, $id:expr) => {
        /// A tag without any data: all of them may live at the same address.
        #[derive(Default)]
        struct $name;
        impl ILTag for $name {
            fn id(&self) -> u64 {
                $id
            }
            fn value_size(&self) -> u64 {
                0
            }
            fn serialize_value(&self, _w: &mut dyn il2_iltags::io::Writer) -> Result<()> {
                Ok(())
            }
            fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> {
                Ok(())
            }
            fn as_any(&self) -> &dyn std::any::Any {
                self
            }
            fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
                self
            }
        }
    };
}
empty_tag!(EmptyA, 100);
empty_tag!(EmptyB, 101);
empty_tag!(EmptyC, 1 << 40);

/// Equality is about bytes, not about where a tag lives.
fn same_place(c: &mut Ctx) -> R {
    let make: [fn() -> Box<dyn ILTag>; 3] = [|| Box::new(EmptyA), || Box::new(EmptyB), || Box::new(EmptyC)];
    for (i, x) in make.iter().enumerate() {
        for (j, y) in make.iter().enumerate() {
            let (a, b) = (x(), y());
            ck!(iltag_are_equal(a.as_ref(), b.as_ref()) == (i == j), "empty tags {} and {} are {}", a.id(), b.id(), if i == j { "different" } else { "equal" });
            let raw = ILRawTag::new(b.id());
            ck!(iltag_are_equal(a.as_ref(), &raw) == (i == j), "empty tags {} and {} (raw) are {}", a.id(), b.id(), if i == j { "different" } else { "equal" });
        }
    }
    // a struct and its first field share an address, too
    #[repr(C)]
    struct Pair(EmptyA, EmptyB, ILRawTag);
    let p = Pair(EmptyA, EmptyB, ILRawTag::new(102));
    ck!(!iltag_are_equal(&p.0, &p.1) && !iltag_are_equal(&p.1, &p.2) && !iltag_are_equal(&p.0, &p.2), "tags of different ids at one address are equal");
    c.n("tags sharing an address compared", 12);
    // the same object, changed in between
    let mut t = ILUInt64Tag::with_value(1);
    let before = t.to_bytes().map_err(|e| format!("{:?}", e))?;
    let copy = ILUInt64Tag::with_value(1);
    ck!(iltag_are_equal(&t, &copy), "equal tags differ");
    t.set_value(2);
    ck!(!iltag_are_equal(&t, &copy), "a changed tag still equals its former value");
    t.set_value(1);
    ck!(iltag_are_equal(&t, &copy) && before == t.to_bytes().unwrap(), "a tag set back to its value differs");
    Ok(())
}

pub fn c18(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    same_place(c)?;
    let reg = gen::registry(&mut rng);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg::new(&reg);
    let n = if c.index % 5 == 0 && !c.interp { gen::tree(&mut rng, &cfg) } else { gen::small_tree(&mut rng, &cfg, 2000) };
    note(c, &n);
    let bn = bytes_of(&n);
    let t = build(&n, &mut rng);
    ck!(iltag_are_equal(t.as_ref(), t.as_ref()), "{} is not equal to itself", n.brief());
    for i in 0..6 {
        let m = match i {
            0 => n.clone(),
            5 => gen::small_tree(&mut rng, &cfg, 300),
            3 | 4 => {
                let mut m = n.clone();
                gen::nudge(&mut rng, &mut m);
                m
            }
            _ => vary(&mut rng, &n, &cfg),
        };
        let bm = bytes_of(&m);
        let u = build(&m, &mut rng);
        let want = bn == bm;
        let (a, b) = (iltag_are_equal(t.as_ref(), u.as_ref()), iltag_are_equal(u.as_ref(), t.as_ref()));
        ck!(a == want && b == want, "comparing {} and {}: {} and {}, they serialize to {} bytes", n.brief(), m.brief(), a, b, if want { "the same" } else { "different" });
        c.case(fnv(&bn) ^ mix(fnv(&bm)));
        c.n(if want { "equal pairs" } else { "different pairs" }, 1);
        // type does not matter, bytes do
        if n.id > 31 && want {
            let raw = ILRawTag::with_value(n.id, &value_bytes(&n));
            ck!(iltag_are_equal(&raw, u.as_ref()) && iltag_are_equal(u.as_ref(), &raw), "{} differs from the same bytes as a raw tag", n.brief());
            c.n("equal pairs of other types", 1);
        }
    }
    c.sample(|| n.brief());
    // every byte counts: raw tags that differ in one place, of all sizes
    let big = c.index % 4 == 0;
    let size = if big { gen::big_len(&mut rng, 400_000) } else { gen::len(&mut rng, if c.interp { 30 } else { 70_000 }) }.max(1);
    let v = rng.bytes(size);
    if big {
        c.n("large tags compared", 1);
    }
    let id = gen::custom_id(&mut rng);
    let a = ILRawTag::with_value(id, &v);
    for i in 0..8 {
        let mut w = v.clone();
        let at = match i {
            0 => 0,
            1 => size - 1,
            2 => size / 2,
            _ => rng.us(size),
        };
        w[at] ^= 1 << rng.below(8);
        let b = ILRawTag::with_value(id, &w);
        ck!(!iltag_are_equal(&a, &b) && !iltag_are_equal(&b, &a), "two tags of {} bytes that differ at {} are equal", size, at);
        c.n("single bits told apart", 1);
    }
    // the same bytes in another order, and other changes that checksums do not see
    for i in 0..12 {
        let mut w = v.clone();
        let x = rng.us(size);
        match i {
            6..=8 if size > 2 => {
                // +d, -2d, +d: the sum and the weighted sum of the bytes stay
                let mut k = 1 + rng.us(if i == 6 { 1 } else { size / 2 });
                let mut x = x;
                if x + 2 * k >= size {
                    x = rng.us(size - 2);
                    k = 1 + rng.us((size - 1 - x) / 2);
                }
                let d = if i == 8 { 1 } else { rng.range(1, 100) as u8 };
                let (a, m, z) = (w[x] as u16 + d as u16, w[x + k] as i16 - 2 * d as i16, w[x + 2 * k] as u16 + d as u16);
                if a < 256 && m >= 0 && z < 256 {
                    w[x] = a as u8;
                    w[x + k] = m as u8;
                    w[x + 2 * k] = z as u8;
                } else {
                    w[x] = w[x].wrapping_add(d);
                    w[x + k] = w[x + k].wrapping_sub(d.wrapping_mul(2));
                    w[x + 2 * k] = w[x + 2 * k].wrapping_add(d);
                }
            }
            9 | 10 if size > 20 => {
                // multiples of the polynomials of CRC-32 and CRC-32C
                let at = rng.us(size - 8);
                let p: u64 = if i == 9 { 0x1_04C1_1DB7 } else { 0x1_1EDC_6F41 };
                let p = p.wrapping_mul(1) << rng.below(24);
                let b = p.to_be_bytes();
                let turn = rng.bool();
                for j in 0..8 {
                    w[at + j] ^= if turn { b[j].reverse_bits() } else { b[j] };
                }
            }
            11 if size > 16 => {
                // words exchanged, words changed by the same amount
                let at = rng.us(size / 8 - 1) * 8;
                let y = rng.us(size / 8 - 1) * 8;
                let m = rng.u64().to_le_bytes();
                if at != y {
                    for j in 0..8 {
                        w[at + j] ^= m[j];
                        w[y + j] ^= m[j];
                    }
                }
            }
            0 => w.reverse(),
            1 => w.rotate_left(x),
            2 => {
                // two exchanged pieces
                let k = 1 + rng.us(16);
                let y = rng.us(size);
                if x + k <= size && y + k <= size && (x + k <= y || y + k <= x) {
                    for j in 0..k {
                        w.swap(x + j, y + j);
                    }
                }
            }
            3 => {
                // what one byte gains the other loses
                let y = rng.us(size);
                let d = 1 + rng.below(5) as u8;
                w[x] = w[x].wrapping_add(d);
                w[y] = w[y].wrapping_sub(d);
            }
            4 => {
                // the same bits turned in two places
                let y = rng.us(size);
                let d = 1 << rng.below(8);
                w[x] ^= d;
                w[y] ^= d;
            }
            _ => w.swap(x, rng.us(size)),
        }
        let b = ILRawTag::with_value(id, &w);
        ck!(iltag_are_equal(&a, &b) == (w == v) && iltag_are_equal(&b, &a) == (w == v), "two tags of the same {} bytes in another order are equal", size);
        c.n("other orders told apart", (w != v) as u64);
    }
    ck!(iltag_are_equal(&a, &ILRawTag::with_value(id, &v)), "two tags of the same {} bytes differ", size);
    ck!(!iltag_are_equal(&a, &ILRawTag::with_value(id, &v[..size - 1])), "a tag equals its prefix");
    let other = id ^ (1 << rng.below(64));
    if other > 15 {
        ck!(!iltag_are_equal(&a, &ILRawTag::with_value(other, &v)), "tags {} and {} are equal", id, other);
    }
    // clones
    let std_reg = Registry::standard(false);
    let std_cfg = Cfg::new(&std_reg);
    for custom in [false, true] {
        let large = rng.one_in(12) && !c.interp;
        let max = if large { gen::big_len(&mut rng, 140_000) } else { 0 };
        let pick = |rng: &mut Rng, c: &Cfg| {
            if large {
                gen::tree(rng, &Cfg { reg: c.reg, max_payload: max, raw_one_in: c.raw_one_in })
            } else {
                gen::small_tree(rng, c, 1500)
            }
        };
        if large {
            c.n("large clones", 1);
        }
        let (mut m, cl) = if custom {
            let m = pick(&mut rng, &cfg);
            let u = build(&m, &mut rng);
            let k = iltag_clone_with_factory(&f, u.as_ref());
            (m, (u, k))
        } else {
            let m = pick(&mut rng, &std_cfg);
            let u = build(&m, &mut rng);
            let k = iltag_clone(u.as_ref());
            (m, (u, k))
        };
        let (mut u, k) = cl;
        let mut k = k.map_err(|e| format!("{} cannot be cloned: {:?}", m.brief(), e))?;
        ck!(observe(k.as_ref()) == m, "the clone of {} is {}", m.brief(), observe(k.as_ref()).brief());
        ck!(iltag_are_equal(u.as_ref(), k.as_ref()), "the clone of {} differs", m.brief());
        let mut mk = m.clone();
        let fresh = |r: &mut Rng| Node { id: 0, v: if r.bool() { Val::Null } else { Val::Null } };
        for _ in 0..if large { 1 } else { 4 } {
            if rng.bool() {
                touch(&mut rng, &mut m, u.as_mut(), &fresh);
            } else {
                touch(&mut rng, &mut mk, k.as_mut(), &fresh);
            }
            ck!(observe(u.as_ref()) == m, "changing a clone changed the original {} to {}", m.brief(), observe(u.as_ref()).brief());
            ck!(observe(k.as_ref()) == mk, "changing the original changed the clone {} to {}", mk.brief(), observe(k.as_ref()).brief());
            let e = bytes_of(&m) == bytes_of(&mk);
            ck!(iltag_are_equal(u.as_ref(), k.as_ref()) == e, "after changes {} and its clone {} compare {}", m.brief(), mk.brief(), !e);
            c.n("changes to clones and originals", 1);
        }
        drop(u);
        ck!(observe(k.as_ref()) == mk, "dropping the original changed the clone to {}", observe(k.as_ref()).brief());
        c.n("clones", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

/// A reader that panics, or fails, or pauses, at some byte.
struct Rude<'a> {
    r: ByteArrayReader<'a>,
    at: usize,
    how: u8,
}

impl<'a> Reader for Rude<'a> {
    fn read(&mut self) -> std::result::Result<u8, IE> {
        if self.r.offset() >= self.at {
            match self.how {
                0 => panic!("rude reader"),
                1 => return Err(IE::BoxedError("rude reader".into())),
                _ => std::thread::yield_now(),
            }
        }
        self.r.read()
    }
}

/// A writer that panics, or fails, or pauses, at some byte.
struct RudeSink {
    out: Vec<u8>,
    at: usize,
    how: u8,
}

impl Writer for RudeSink {
    fn write(&mut self, value: u8) -> std::result::Result<(), IE> {
        if self.out.len() >= self.at {
            match self.how {
                0 => panic!("rude writer"),
                1 => return Err(IE::BoxedError("rude writer".into())),
                _ => std::thread::yield_now(),
            }
        }
        self.out.push(value);
        Ok(())
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

struct Shared {
    f: ILStandardTagFactory,
    tags: Vec<Tag>,
    nodes: Vec<Node>,
    bytes: Vec<Vec<u8>>,
    /// messages that are refused, or not, with what becomes of them
    other: Vec<(Vec<u8>, Option<Node>)>,
}

fn thread_work(s: &Shared, rng: &mut Rng, ops: usize, who: usize) -> std::result::Result<BTreeMap<&'static str, u64>, String> {
    let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
    for _ in 0..ops {
        let i = rng.us(s.tags.len());
        let what = match rng.below(12) {
            11 => bombs(s, rng, i, who)?,
            9 | 10 => {
                let b = &s.bytes[i];
                let (at, how) = (rng.us(b.len()), rng.below(3) as u8);
                let mut w = RudeSink { out: vec![], at, how };
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.tags[i].serialize(&mut w).is_ok()));
                ck!(b.starts_with(&w.out), "thread {}: a shared tag is written as {}", who, diff(b, &w.out));
                let what = match (how, x) {
                    (0, Err(_)) => "panicking sinks",
                    (1, Ok(false)) => "failing sinks",
                    (2, Ok(true)) if w.out.len() == b.len() => "slow sinks",
                    (h, x) => return Err(format!("thread {}: a sink of kind {} gave {:?}", who, h, x.map_err(|_| "a panic"))),
                };
                if rng.bool() {
                    // at once again
                    let o = ser(s.tags[i].as_ref())?;
                    ck!(o == *b, "thread {}: after {} a shared tag is written as {}", who, what, diff(b, &o));
                }
                what
            }
            0 | 1 => {
                let k = rng.us(ROUTES);
                let t = decode_by(&s.f, k, &s.bytes[i], rng).map_err(|e| format!("thread {}: {} of {}: {:?}", who, route_name(k), hex(&s.bytes[i]), e))?;
                ck!(observe(t.as_ref()) == s.nodes[i], "thread {}: {} of {} gives {}", who, route_name(k), hex(&s.bytes[i]), observe(t.as_ref()).brief());
                ck!(ser(t.as_ref())? == s.bytes[i], "thread {}: another thread's bytes?", who);
                "decodes"
            }
            2 => {
                let b = ser(s.tags[i].as_ref())?;
                ck!(b == s.bytes[i], "thread {}: a shared tag is written as {}", who, diff(&s.bytes[i], &b));
                "serializations"
            }
            3 => {
                ck!(s.tags[i].size() == s.bytes[i].len() as u64, "thread {}: a shared tag says {} bytes", who, s.tags[i].size());
                ck!(observe(s.tags[i].as_ref()) == s.nodes[i], "thread {}: a shared tag changed", who);
                "observations"
            }
            4 => {
                let j = rng.us(s.tags.len());
                let e = iltag_are_equal(s.tags[i].as_ref(), s.tags[j].as_ref());
                ck!(e == (s.bytes[i] == s.bytes[j]), "thread {}: shared tags compare {}", who, e);
                "comparisons"
            }
            5 => {
                let k = iltag_clone_with_factory(&s.f, s.tags[i].as_ref()).map_err(|e| format!("thread {}: clone: {:?}", who, e))?;
                ck!(observe(k.as_ref()) == s.nodes[i], "thread {}: a clone of a shared tag is {}", who, observe(k.as_ref()).brief());
                "clones"
            }
            6 if !s.other.is_empty() => {
                let (b, w) = &s.other[rng.us(s.other.len())];
                let r = s.f.from_bytes(b).map(|t| observe(t.as_ref()));
                ck!(r.is_ok() == w.is_some(), "thread {}: {} gives {}", who, hex(b), show(&r));
                if let Ok(n) = r {
                    ck!(Some(&n) == w.as_ref(), "thread {}: {} gives {}", who, hex(b), n.brief());
                }
                "damaged messages"
            }
            7 => {
                let b = &s.bytes[i];
                let at = rng.us(b.len());
                let how = rng.below(3) as u8;
                let mut r = Rude { r: ByteArrayReader::new(b), at, how };
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.f.deserialize(&mut r).map(|t| observe(t.as_ref()))));
                match (how, x) {
                    (0, Err(_)) => "panicking sources",
                    (1, Ok(Err(_))) => "failing sources",
                    (2, Ok(Ok(n))) if n == s.nodes[i] => "slow sources",
                    (h, x) => return Err(format!("thread {}: a source of kind {} gave {:?}", who, h, x.map(|r| r.is_ok()).map_err(|_| "a panic"))),
                }
            }
            _ => {
                let mut t = s.f.create_tag(s.nodes[i].id).ok_or("create_tag")?;
                s.f.deserialize_into(&mut ByteArrayReader::new(&s.bytes[i]), t.as_mut()).map_err(|e| format!("thread {}: {:?}", who, e))?;
                ck!(observe(t.as_ref()) == s.nodes[i], "thread {}: a tag decoded in place is {}", who, observe(t.as_ref()).brief());
                "decodes in place"
            }
        };
        *seen.entry(what).or_insert(0) += 1;
    }
    Ok(seen)
}

/// A payload that panics, or fails, or does its work, as the thread says.
#[derive(Default)]
struct Bomb {
    data: Vec<u8>,
}

thread_local! {
    static FUSE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

fn fuse() -> Result<()> {
    match FUSE.with(|f| f.get()) {
        1 => panic!("payload panics"),
        2 => Err(ErrorKind::CorruptedData),
        _ => Ok(()),
    }
}

impl il2_iltags::tags::payload::ILTagPayload for Bomb {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        let h = self.data.len() / 2;
        writer.serialize_bytes(&self.data[..h])?;
        fuse()?;
        writer.serialize_bytes(&self.data[h..])
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> Result<()> {
        self.data = reader.deserialize_bytes(size / 2)?;
        fuse()?;
        let rest = reader.deserialize_bytes(size - size / 2)?;
        self.data.extend_from_slice(&rest);
        Ok(())
    }
}
type BombTag = il2_iltags::tags::payload::ILGenericPayloadTag<Bomb>;
const BOMB_ID: u64 = 77_777;

/// Operations in the middle of which the payload panics or fails, and then the same again in peace.
fn bombs(s: &Shared, rng: &mut Rng, i: usize, who: usize) -> std::result::Result<&'static str, String> {
    let mut t: BombTag = il2_iltags::tags::payload::ILGenericPayloadTag::new(BOMB_ID);
    let n = 2 + rng.us(30);
    t.mut_payload().data = rng.bytes(n);
    let bt = ser(&t)?;
    let mut q = ILTagSeqTag::new();
    let lead = ILByteArrayTag::with_value(&t.mut_payload().data);
    q.mut_value().push(Box::new(lead));
    let deep = rng.bool();
    let how = 1 + rng.below(2) as u8;
    let op = rng.below(6);
    let x: &dyn ILTag = if deep {
        q.mut_value().push(Box::new(t));
        &q
    } else {
        &t
    };
    let bx = if deep { ser(x)? } else { bt };
    let go = || -> bool {
        match op {
            0 => x.to_bytes().is_ok(),
            1 => iltag_are_equal(x, s.tags[i].as_ref()),
            2 => iltag_are_equal(s.tags[i].as_ref(), x),
            3 => iltag_clone_with_factory(&s.f, x).is_ok(),
            4 => s.f.from_bytes(&bx).is_ok(),
            _ => x.serialize(&mut VecWriter::new()).is_ok(),
        }
    };
    FUSE.with(|f| f.set(how));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(go));
    FUSE.with(|f| f.set(0));
    match (how, &r) {
        (1, Err(_)) | (_, Ok(false)) => {}
        _ => return Err(format!("thread {}: operation {} with a payload that {} gave {:?}", who, op, if how == 1 { "panics" } else { "fails" }, r.map_err(|_| "a panic"))),
    }
    // at once again: a shared tag, and the same one
    ck!(iltag_are_equal(s.tags[i].as_ref(), s.tags[i].as_ref()), "thread {}: after a broken payload a tag is not equal to itself", who);
    ck!(s.tags[i].to_bytes().ok().as_ref() == Some(&s.bytes[i]), "thread {}: after a broken payload a shared tag is written differently", who);
    let k = iltag_clone_with_factory(&s.f, x).map_err(|e| format!("thread {}: after a broken payload a clone fails: {:?}", who, e))?;
    ck!(ser(k.as_ref())? == bx, "thread {}: after a broken payload a clone is written as {}", who, hex(&ser(k.as_ref())?));
    ck!(iltag_are_equal(x, k.as_ref()), "thread {}: after a broken payload a clone differs from the original", who);
    Ok(if how == 1 { "panicking payloads" } else { "failing payloads" })
}

pub fn c26(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reenter = rng.bool();
    REENTER.store(reenter, std::sync::atomic::Ordering::Relaxed);
    let before = REENTRIES.load(std::sync::atomic::Ordering::Relaxed);
    let mut reg = gen::registry(&mut rng);
    for (i, k) in [(22, Kind::Seq), (300, Kind::PNest), (301, Kind::PBlob)] {
        reg.kinds.insert(i, k);
    }
    let mut f = factory(&reg, &mut rng);
    f.engine().register(BOMB_ID, Box::new(ILDefaultWithIdTagCreator::<BombTag>::default()));
    let cfg = Cfg::new(&reg);
    let mut nodes = vec![];
    for i in 0..if c.interp { 3 } else { 10 } {
        nodes.push(match i {
            0 => gen::chain(&mut rng, &Cfg { reg: &reg, max_payload: 8, raw_one_in: 8 }, if c.interp { 12 } else { gen::DEEP }),
            1 if !c.interp => gen::tree(&mut rng, &cfg),
            _ => gen::small_tree(&mut rng, &cfg, 600),
        });
    }
    let bytes: Vec<Vec<u8>> = nodes.iter().map(bytes_of).collect();
    let tags: Vec<Tag> = nodes.iter().map(|n| build(n, &mut rng)).collect();
    let mut other = vec![];
    for _ in 0..if c.interp { 2 } else { 12 } {
        let b = gen::hostile(&mut rng, &cfg);
        match dec_all(&reg, &b) {
            Ok(d) if d.depth > gen::DEEP => {}
            Ok(d) => other.push((b, Some(d.node))),
            Err(Bad::TooLarge) => {}
            Err(_) => other.push((b, None)),
        }
    }
    // one far too deep message: refused, and nothing of it may stay
    if !c.interp {
        let ks = vec![22u8; 1000];
        other.push((gen::deep_bytes(&ks, &[0]), None));
    }
    let s = Arc::new(Shared { f, tags, nodes, bytes, other });
    let threads = if c.interp { 2 } else { 2 + rng.us(7) };
    let ops = if c.interp { 8 } else { 60 };
    let gate = Arc::new(Barrier::new(threads));
    let mut hs = vec![];
    for who in 0..threads {
        let (s, gate, mut r) = (s.clone(), gate.clone(), rng.fork());
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            gate.wait();
            thread_work(&s, &mut r, ops, who)
        }).unwrap());
    }
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(m)) => {
                for (k, v) in m {
                    c.n(k, v);
                    c.n("concurrent operations", v);
                }
            }
            Ok(Err(e)) => bad = Some(e),
            Err(_) => bad = Some("a thread panicked".to_string()),
        }
    }
    if let Some(e) = bad {
        return Err(e);
    }
    c.max("threads at once", threads as u64);
    c.case(mix(fnv(&s.bytes[0]) ^ mix(threads as u64)));
    c.case(mix(fnv(&s.bytes[s.bytes.len() - 1])));
    c.sample(|| format!("{} threads, {} shared tags, the first {}", threads, s.tags.len(), s.nodes[0].brief()));
    // the same on one thread, later: nothing was left behind
    let m = thread_work(&s, &mut rng, ops, 99)?;
    for (_, v) in m {
        c.n("sequential operations", v);
    }
    // many refusals in a row, of messages that announce far more than they hold: no budget is used up
    let mut refused = 0;
    for _ in 0..if c.interp { 10 } else { 300 } {
        let mut b = vec![*rng.pick(&[20u8, 21, 22, 25, 30, 31])];
        match rng.below(4) {
            0 => b.extend_from_slice(&[0xFB, 0x1F, 0xFF, 0xFF, 0x08]),
            1 => enc_ilint(rng.below(1 << 29), &mut b),
            2 => enc_ilint((1 << 29) - rng.below(300), &mut b),
            _ => enc_ilint(rng.below(1 << 16), &mut b),
        }
        for _ in 0..rng.below(4) {
            b.push(*rng.pick(&[0u8, 0, 1, 2, 22, 255]));
        }
        if let Err(e) = dec_all(&reg, &b) {
            if let Ok(t) = s.f.from_bytes(&b) {
                return Err(format!("{} is accepted as {}, it is malformed: {:?}", hex(&b), observe(t.as_ref()).brief(), e));
            }
            let mut src = std::io::Cursor::new(&b);
            if refused % 3 == 0 && dec_node(&reg, &b, false, 0).is_err() && s.f.deserialize(&mut il2_iltags::io::ReadReader::new(&mut src)).is_ok() {
                return Err(format!("{} is accepted from a stream", hex(&b)));
            }
            refused += 1;
        }
    }
    c.n("refusals in a row", refused);
    let m = thread_work(&s, &mut rng, ops / 4, 98)?;
    for (_, v) in m {
        c.n("operations after refusals", v);
    }
    c.n("uses of the library by payloads", REENTRIES.load(std::sync::atomic::Ordering::Relaxed) - before);
    // tags made by one thread, changed by the next, read by the one after
    let mut n = gen::small_tree(&mut rng, &cfg, 500);
    let mut t = build(&n, &mut rng);
    for _ in 0..3 {
        let mut r = rng.fork();
        let (n2, t2) = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let fresh = |r: &mut Rng| Node { id: 0, v: if r.bool() { Val::Null } else { Val::Null } };
            touch(&mut r, &mut n, t.as_mut(), &fresh);
            (n, t)
        }).unwrap().join().map_err(|_| "changing a tag on another thread panicked")?;
        n = n2;
        t = t2;
        ck!(observe(t.as_ref()) == n, "a tag changed by another thread is {} instead of {}", observe(t.as_ref()).brief(), n.brief());
        c.n("tags handed over", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

pub fn c27(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let reenter = rng.bool();
    REENTER.store(reenter, std::sync::atomic::Ordering::Relaxed);
    let before = REENTRIES.load(std::sync::atomic::Ordering::Relaxed);
    let mut reg = Registry::standard(rng.bool());
    let blob = gen::custom_id(&mut rng);
    let rec = blob ^ (1 << 20) ^ 0x100;
    let nest = blob ^ (1 << 21) ^ 0x200;
    if rec < 32 || nest < 32 {
        return Ok(c.trivial());
    }
    reg.kinds.insert(blob, Kind::PBlob);
    reg.kinds.insert(rec, Kind::PRec);
    reg.kinds.insert(nest, Kind::PNest);
    // payloads in the place of standard tags
    let stolen_id = *rng.pick(&[1u64, 3, 5, 7, 8, 11, 12, 13, 16, 24]);
    if rng.bool() {
        reg.kinds.insert(stolen_id, Kind::PBlob);
    }
    let f = factory(&reg, &mut rng);
    let max = if c.interp { 12 } else { 600 };
    let cfg = Cfg { reg: &reg, max_payload: 20, raw_one_in: 8 };
    let pick = |rng: &mut Rng| -> Node {
        match rng.below(5) {
            0 | 1 => {
                let v = gen::bytes(rng, max);
                Node { id: blob, v: Val::PBlob(v) }
            }
            2 => Node { id: rec, v: gen::leaf_val(rng, Kind::PRec, max) },
            3 => Node { id: nest, v: Val::PNest(Box::new(gen::small_tree(rng, &cfg, 300))) },
            _ => {
                if reg.kinds.get(&stolen_id) == Some(&Kind::PBlob) {
                    let n = implicit_size(stolen_id).filter(|_| stolen_id < 16).unwrap_or_else(|| rng.us(40));
                    Node { id: stolen_id, v: Val::PBlob(rng.bytes(n)) }
                } else {
                    Node { id: blob, v: Val::PBlob(vec![]) }
                }
            }
        }
    };
    let mut n = pick(&mut rng);
    if c.index % 29 == 28 {
        let k = gen::big_len(&mut rng, 140_000);
        n = match rng.below(3) {
            0 => Node { id: rec, v: Val::PRec(rng.u64() as u16, gen::u64_any(&mut rng), rng.bytes(k)) },
            1 => Node { id: nest, v: Val::PNest(Box::new(Node { id: blob, v: Val::PBlob(rng.bytes(k)) })) },
            _ => Node { id: blob, v: Val::PBlob(rng.bytes(k)) },
        };
        c.n("large payloads", 1);
    }
    let size = value_bytes(&n).len();
    let t = build(&n, &mut rng);
    let b = bytes_of(&n);
    c.case(fnv(&b));
    c.sample(|| format!("{} as {}", n.brief(), hex(&b)));
    ck!(t.id() == n.id && t.value_size() == size as u64 && t.size() == b.len() as u64, "{} says {} bytes of {}", n.brief(), t.value_size(), t.size());
    ck!(t.is_implicity() == (n.id < 16) && t.is_reserved() == (n.id < 32), "{} has the wrong flags", n.brief());
    ck!(ser(t.as_ref())? == b, "{} is written as {}", n.brief(), diff(&b, &ser(t.as_ref())?));
    for _ in 0..3 {
        let k = rng.us(ROUTES);
        GIVEN.with(|g| g.set(None));
        let x = decode_by(&f, k, &b, &mut rng).map_err(|e| format!("{} of {}: {:?}", route_name(k), n.brief(), e))?;
        if n.kind() != Kind::PNest {
            let g = GIVEN.with(|g| g.get());
            ck!(g == Some(size), "the payload of {} was told {:?} bytes instead of {}", n.brief(), g, size);
        }
        ck!(kind_of(x.as_ref()) == Some(n.kind()), "{} is decoded as {:?}", n.brief(), kind_of(x.as_ref()));
        ck!(observe(x.as_ref()) == n, "{} of {} gives {}", route_name(k), n.brief(), observe(x.as_ref()).brief());
        ck!(ser(x.as_ref())? == b, "{} is written back differently", n.brief());
        let k = iltag_clone_with_factory(&f, x.as_ref()).map_err(|e| format!("clone of {}: {:?}", n.brief(), e))?;
        ck!(observe(k.as_ref()) == n, "the clone of {} is {}", n.brief(), observe(k.as_ref()).brief());
        c.n("round trips", 1);
    }
    // nested in everything, with neighbours
    let sib = |rng: &mut Rng| gen::leaf(rng, &cfg);
    let w = Node {
        id: 22,
        v: Val::Seq(vec![
            sib(&mut rng),
            Node { id: 21, v: Val::TagArr(vec![n.clone(), sib(&mut rng), n.clone()]) },
            Node { id: 30, v: Val::Dict([(b"k".to_vec(), n.clone()), (b"z".to_vec(), sib(&mut rng))].into_iter().collect()) },
            Node { id: nest, v: Val::PNest(Box::new(n.clone())) },
            sib(&mut rng),
        ]),
    };
    let bw = bytes_of(&w);
    let x = f.from_bytes(&bw).map_err(|e| format!("{} nested: {:?} ({})", n.brief(), e, hex(&bw)))?;
    ck!(observe(x.as_ref()) == w, "{} nested gives {}", n.brief(), observe(x.as_ref()).brief());
    ck!(ser(x.as_ref())? == bw, "{} nested is written back differently", n.brief());
    c.n("nested payloads", 4);
    // the payload is told what was declared, whatever it makes of it
    for _ in 0..6 {
        let mut m = Node { id: if rng.bool() { rec } else { nest }, v: Val::Null };
        let big = rng.one_in(24) && !c.interp;
        m.v = if big && m.id == rec {
            let k = gen::big_len(&mut rng, 9_000);
            c.n("large payloads of another size", 1);
            Val::PRec(rng.u64() as u16, gen::u64_any(&mut rng), rng.bytes(k))
        } else if m.id == rec { gen::leaf_val(&mut rng, Kind::PRec, 12) } else { Val::PNest(Box::new(gen::small_tree(&mut rng, &cfg, 20))) };
        let v = value_bytes(&m);
        let d = match rng.below(4) {
            0 => 0,
            1 => v.len() + 1 + rng.us(3),
            2 if rng.bool() => v.len() - 1,
            2 => v.len() + 1 + gen::len(&mut rng, 300),
            _ => rng.us(v.len() + 4),
        };
        let mut b = ilint(m.id);
        enc_ilint(d as u64, &mut b);
        b.extend_from_slice(&v);
        if rng.bool() {
            let n = rng.us(12) + d.saturating_sub(v.len());
            b.extend(rng.bytes(n));
        }
        let want = dec_node(&reg, &b, false, 0);
        let k = rng.us(SOURCES);
        let mut t = build(&m, &mut rng);
        for into in [false, true] {
            GIVEN.with(|g| g.set(None));
            let (r, _) = if into {
                let (r, p) = with_source(k, &b, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
                (r.map(|_| observe(t.as_ref())), p)
            } else {
                let (r, p) = decode_on(&f, k, &b, &mut rng);
                (r.map(|t| observe(t.as_ref())), p)
            };
            if m.id == rec {
                let g = GIVEN.with(|g| g.get());
                ck!(g == Some(d) || (g.is_none() && r.is_err()), "a payload of {} declared bytes was told {:?}: {}", d, g, hex(&b));
            }
            match (&r, &want) {
                (Ok(x), Ok(w)) => ck!(*x == w.node, "{} gives {} instead of {}", hex(&b), x.brief(), w.node.brief()),
                (Err(_), Err(_)) => {}
                _ => return Err(format!("{} ({}{}) gives {} where {} is right", hex(&b), source_name(k), if into { ", in place" } else { "" }, show(&r), if want.is_ok() { "a tag" } else { "a refusal" })),
            }
            c.n("declared sizes of payloads", 1);
        }
    }
    // misbehaving payloads
    let id = if reg.kinds.get(&stolen_id) == Some(&Kind::PBlob) && rng.bool() { stolen_id } else { blob };
    let len = match implicit_size(id) {
        Some(n) if id < 16 => n,
        _ if !c.interp && rng.one_in(16) => {
            let max = if rng.one_in(12) { 140_000 } else { 9_000 };
            gen::big_len(&mut rng, max)
        }
        _ => gen::len(&mut rng, max),
    };
    if len > 2000 {
        c.n("large misbehaving payloads", 1);
    }
    let v = rng.bytes(len);
    let n = Node { id, v: Val::PBlob(v.clone()) };
    let one = bytes_of(&n);
    let after = rng.range(1, 900) as usize;
    let tail: Vec<u8> = (0..after).map(|i| (i % 251) as u8).collect();
    let wrap = |rng: &mut Rng, inner: &[u8], how: u64| -> (Vec<u8>, &'static str) {
        let mut p = vec![];
        let (id, name) = match how {
            0 => return (inner.to_vec(), "alone"),
            1 => {
                p.extend_from_slice(inner);
                enc_node(&Node { id: 18, v: Val::BigInt(vec![7; 30 + rng.us(600)]) }, &mut p);
                (22u64, "before another tag in a sequence")
            }
            2 => {
                p.push(2);
                p.extend_from_slice(inner);
                enc_node(&Node { id: 18, v: Val::BigInt(vec![7; 30]) }, &mut p);
                (21, "before another tag in an array")
            }
            3 => {
                p.push(1);
                enc_str_tag(b"k", &mut p);
                p.extend_from_slice(inner);
                (30, "in a dictionary")
            }
            _ => {
                p.extend_from_slice(inner);
                (nest, "in another payload")
            }
        };
        let mut o = ilint(id);
        enc_ilint(p.len() as u64, &mut o);
        o.extend_from_slice(&p);
        (o, name)
    };
    for round in 0..if c.interp { 3 } else { 12 } {
        let how = rng.below(5);
        let (m, name) = wrap(&mut rng, &one, how);
        let mut d = m.clone();
        d.extend_from_slice(&tail);
        let k = match rng.below(6) {
            0 => *rng.pick(&[511usize, 512, 513, 1024, 4096]),
            1 => after,
            2 => 1 << 20,
            _ => 1 + rng.us(9),
        };
        let greed = match round % 3 {
            0 if rng.bool() => Greed::Under((1 + rng.us(9)).min(len)),
            0 => Greed::Under(1 + rng.us(len.max(1))),
            1 => Greed::Over(k),
            _ => Greed::Sneaky(k),
        };
        if let Greed::Under(_) = greed {
            if len == 0 {
                continue;
            }
        }
        GREED.with(|g| g.set(greed));
        STOLEN.with(|s| s.set(0));
        let src = rng.us(SOURCES);
        let (r, pos) = decode_on(&f, src, &d, &mut rng);
        let into = if how == 0 {
            let mut t = build(&n, &mut rng);
            let (r, _) = with_source(src, &d, &mut rng, &mut |r| f.deserialize_into(r, t.as_mut()));
            Some((r, t))
        } else {
            None
        };
        GREED.with(|g| g.set(Greed::Exact));
        let stolen = STOLEN.with(|s| s.get());
        ck!(stolen == 0, "a payload {} ({:?}, {} bytes) got {} bytes that follow it ({})", name, greed, len, stolen, source_name(src));
        match greed {
            Greed::Under(u) => {
                match r {
                    Err(TErr::CorruptedData) => {}
                    x => return Err(format!("a payload {} that leaves {} of {} bytes is reported as {:?} ({})", name, u, len, x.map(|t| observe(t.as_ref()).brief()), source_name(src))),
                }
                if let Some((r, _)) = into {
                    ck!(matches!(r, Err(TErr::CorruptedData)), "a payload that leaves {} of {} bytes is reported as {:?} by deserialize_into", u, len, r);
                }
                c.n("payloads that read less", 1);
            }
            Greed::Over(k) => {
                ck!(r.is_err(), "a payload {} that needs {} bytes more than its {} is accepted", name, k, len);
                if let Some((r, _)) = into {
                    ck!(r.is_err(), "a payload that needs {} bytes more than its {} is accepted by deserialize_into", k, len);
                }
                c.n("payloads that read more", 1);
            }
            _ => {
                let t = r.map_err(|e| format!("a payload {} that only tried to read more is refused with {:?} ({})", name, e, source_name(src)))?;
                let clean = f.from_bytes(&m).map_err(|e| format!("{:?}", e))?;
                ck!(observe(t.as_ref()) == observe(clean.as_ref()), "a payload {} that tried to read more is {}", name, observe(t.as_ref()).brief());
                if let Some(p) = pos {
                    ck!(p == m.len(), "a payload {} that tried to read more moved the source to {} instead of {} ({})", name, p, m.len(), source_name(src));
                }
                c.n("payloads that tried to read more", 1);
            }
        }
    }
    c.n("uses of the library by payloads", REENTRIES.load(std::sync::atomic::Ordering::Relaxed) - before);
    Ok(())
}

// ---------------------------------------------------------------- C28

fn addr<T: ?Sized>(x: &T) -> *const u8 {
    x as *const T as *const u8
}

struct Look<'a> {
    n: &'a Node,
    hits: u64,
    misses: u64,
}

impl<'a> Look<'a> {
    fn at<T: ILTag>(&mut self, k: Kind, t: &mut dyn ILTag, wrong: u64) -> R {
        let is = k == self.n.kind();
        let id = self.n.id;
        let here = addr(&*t);
        macro_rules! opt {
            ($what:expr, $r:expr, $want:expr) => {{
                let r = $r.map(|x: &T| addr(x));
                ck!(r.is_some() == $want, "{} of {} as {:?} gives {}", $what, self.n.brief(), k, if r.is_some() { "a tag" } else { "nothing" });
                if let Some(p) = r {
                    ck!(p == here, "{} of {} as {:?} gives another object", $what, self.n.brief(), k);
                }
                if $want { self.hits += 1 } else { self.misses += 1 }
            }};
        }
        macro_rules! res {
            ($what:expr, $r:expr, $want:expr) => {{
                let r: std::result::Result<*const u8, TErr> = $r.map(|x: &T| addr(x));
                match r {
                    Ok(p) => ck!($want && p == here, "{} of {} as {:?} succeeds wrongly", $what, self.n.brief(), k),
                    Err(e) => ck!(!$want && matches!(e, TErr::UnexpectedTagType), "{} of {} as {:?} fails with {:?}", $what, self.n.brief(), k, e),
                }
                if $want { self.hits += 1 } else { self.misses += 1 }
            }};
        }
        opt!("tag_downcast_ref", tag_downcast_ref::<T>(t), is);
        opt!("tag_downcast_ref_with_id (its id)", tag_downcast_ref_with_id::<T>(id, t), is);
        opt!("tag_downcast_ref_with_id (another id)", tag_downcast_ref_with_id::<T>(wrong, t), false);
        res!("tag_id_downcast_ref (its id)", tag_id_downcast_ref::<T>(id, t), is);
        res!("tag_id_downcast_ref (another id)", tag_id_downcast_ref::<T>(wrong, t), false);
        opt!("tag_downcast_mut", tag_downcast_mut::<T>(t).map(|x| &*x), is);
        opt!("tag_downcast_mut_with_id (its id)", tag_downcast_mut_with_id::<T>(id, t).map(|x| &*x), is);
        opt!("tag_downcast_mut_with_id (another id)", tag_downcast_mut_with_id::<T>(wrong, t).map(|x| &*x), false);
        res!("tag_id_downcast_mut (its id)", tag_id_downcast_mut::<T>(id, t).map(|x| &*x), is);
        res!("tag_id_downcast_mut (another id)", tag_id_downcast_mut::<T>(wrong, t).map(|x| &*x), false);
        for i in [id, wrong] {
            let want = is && i == id;
            let r = assert_tag_id_and_type::<T>(i, t);
            match r {
                Ok(()) => ck!(want, "{} passes for a {:?} with id {}", self.n.brief(), k, i),
                Err(e) => ck!(!want && matches!(e, TErr::UnexpectedTagType), "{} asserted as {:?} with id {} fails with {:?}", self.n.brief(), k, i, e),
            }
            let text = format!("{} {}", i, k as u32);
            let errs: [(TErr, &dyn Fn(&TErr) -> bool); 6] = [
                (TErr::TagTooLarge, &|e| matches!(e, TErr::TagTooLarge)),
                (TErr::UnknownTag, &|e| matches!(e, TErr::UnknownTag)),
                (TErr::CorruptedData, &|e| matches!(e, TErr::CorruptedData)),
                (TErr::UnsupportedTag, &|e| matches!(e, TErr::UnsupportedTag)),
                (TErr::IOError(IE::EndOfData), &|e| matches!(e, TErr::IOError(IE::EndOfData))),
                (TErr::Boxed(text.clone().into()), &|e| format!("{:?}", e).contains(&text)),
            ];
            let pick = (i as usize ^ k as usize) % 6;
            for (j, (e, ok)) in errs.into_iter().enumerate() {
                if j != pick {
                    continue;
                }
                match assert_tag_id_and_type_or_error::<T>(i, t, e) {
                    Ok(()) => ck!(want, "{} passes for a {:?} with id {}", self.n.brief(), k, i),
                    Err(e) => ck!(!want && ok(&e), "{} asserted as {:?} with id {} fails with another error: {:?}", self.n.brief(), k, i, e),
                }
            }
            if want {
                self.hits += 2
            } else {
                self.misses += 2
            }
        }
        Ok(())
    }
}

pub fn c28(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let k = ALL_KINDS[(c.index % 31) as usize];
    let own = std_id(k);
    let id = match own {
        Some(i) if !id_free(k) || rng.bool() => i,
        _ => loop {
            // also the ids other types have by default
            let i = if rng.one_in(3) { 16 + rng.below(16) } else { gen::custom_id(&mut rng) };
            if i > 15 {
                break i;
            }
        },
    };
    let mut n = Node { id, v: gen::leaf_val(&mut rng, k, 20) };
    if k == Kind::Seq && rng.bool() {
        n.v = Val::Seq(vec![Node { id: 3, v: Val::U8(1) }]);
    }
    let mut t = build(&n, &mut rng);
    c.case(fnv(&bytes_of(&n)) ^ mix(c.index % 31));
    c.sample(|| n.brief());
    for _ in 0..2 {
        let wrong = match rng.below(4) {
            0 => id ^ (1 << rng.below(64)),
            1 => id.wrapping_add(1),
            2 => *rng.pick(&[0u64, 16, 17, 22, 30, 31]),
            _ => gen::u64_any(&mut rng),
        };
        if wrong == id {
            continue;
        }
        let mut l = Look { n: &n, hits: 0, misses: 0 };
        macro_rules! m {
            ($k:ident, $t:ty) => {
                l.at::<$t>(Kind::$k, t.as_mut(), wrong)?;
            };
        }
        for_all_types!(m);
        c.n("accesses granted", l.hits);
        c.n("accesses denied", l.misses);
    }
    // what was decoded is as good as what was built
    let mut reg = Registry::standard(true);
    reg.kinds.insert(id, k);
    let f = factory(&reg, &mut rng);
    let mut d = f.from_bytes(&bytes_of(&n)).map_err(|e| format!("{}: {:?}", n.brief(), e))?;
    let mut l = Look { n: &n, hits: 0, misses: 0 };
    macro_rules! m2 {
        ($k:ident, $t:ty) => {
            l.at::<$t>(Kind::$k, d.as_mut(), id ^ 0x1000)?;
        };
    }
    for_all_types!(m2);
    c.n("accesses granted", l.hits);
    c.n("accesses denied", l.misses);
    // changes made through a checked access are made to the tag
    match k {
        Kind::U32 => {
            tag_downcast_mut::<ILUInt32Tag>(t.as_mut()).ok_or("denied")?.set_value(0xabcdef01);
            tag_id_downcast_mut::<ILUInt32Tag>(id, d.as_mut()).map_err(|e| format!("{:?}", e))?.set_value(0xabcdef01);
            n.v = Val::U32(0xabcdef01);
        }
        Kind::Str => {
            tag_downcast_mut_with_id::<ILStringTag>(id, t.as_mut()).ok_or("denied")?.set_value("changed");
            tag_id_downcast_mut::<ILStringTag>(id, d.as_mut()).map_err(|e| format!("{:?}", e))?.mut_value().push_str("changed");
            let mut s = match &n.v {
                Val::Str(s) => s.clone(),
                _ => unreachable!(),
            };
            s.push_str("changed");
            ck!(observe(d.as_ref()) == (Node { id, v: Val::Str(s) }), "a change through tag_id_downcast_mut is lost");
            n.v = Val::Str("changed".into());
            d = build(&n, &mut rng);
        }
        Kind::Seq => {
            tag_downcast_mut::<ILTagSeqTag>(t.as_mut()).ok_or("denied")?.mut_value().push(Box::new(ILNullTag::new()));
            tag_id_downcast_mut::<ILTagSeqTag>(id, d.as_mut()).map_err(|e| format!("{:?}", e))?.mut_value().push(Box::new(ILNullTag::new()));
            if let Val::Seq(v) = &mut n.v {
                v.push(Node { id: 0, v: Val::Null });
            }
        }
        Kind::Raw => {
            tag_downcast_mut::<ILRawTag>(t.as_mut()).ok_or("denied")?.set_value(&[1, 2, 3]);
            tag_downcast_mut_with_id::<ILRawTag>(id, d.as_mut()).ok_or("denied")?.set_value(&[1, 2, 3]);
            n.v = Val::Raw(vec![1, 2, 3]);
        }
        Kind::PBlob => {
            tag_downcast_mut::<BlobTag>(t.as_mut()).ok_or("denied")?.mut_payload().data = vec![5; 5];
            tag_id_downcast_mut::<BlobTag>(id, d.as_mut()).map_err(|e| format!("{:?}", e))?.data = vec![5; 5];
            n.v = Val::PBlob(vec![5; 5]);
        }
        _ => return Ok(()),
    }
    ck!(observe(t.as_ref()) == n && observe(d.as_ref()) == n, "a change through a checked access is lost: {} and {} instead of {}", observe(t.as_ref()).brief(), observe(d.as_ref()).brief(), n.brief());
    ck!(ser(t.as_ref())? == bytes_of(&n), "a change through a checked access is not written");
    c.n("changes through checked access", 2);
    Ok(())
}

// ---------------------------------------------------------------- C29

pub fn c29(c: &mut Ctx) -> R {
    let mut rng = c.rng.fork();
    let mut reg = gen::registry(&mut rng);
    reg.kinds.insert(3, Kind::U8);
    let f = factory(&reg, &mut rng);
    let cfg = Cfg { reg: &reg, max_payload: if c.interp { 6 } else { 40 }, raw_one_in: 6 };
    // every type in turn, then trees
    let k = ALL_KINDS[(c.index % 31) as usize];
    let leafy = !matches!(k, Kind::TagArr | Kind::Seq | Kind::Dict | Kind::PNest);
    let mut n = if leafy && rng.bool() {
        let id = match std_id(k) {
            Some(i) if !id_free(k) || rng.bool() => i,
            _ => gen::custom_id(&mut rng),
        };
        Node { id, v: gen::leaf_val(&mut rng, k, if c.interp { 6 } else { 300 }) }
    } else {
        gen::small_tree(&mut rng, &cfg, 2000)
    };
    note(c, &n);
    let id = n.id;
    let mut t = build(&n, &mut rng);
    let first = n.brief();
    let fresh = |r: &mut Rng| -> Node {
        match r.below(4) {
            0 => Node { id: 3, v: Val::U8(r.u64() as u8) },
            1 => Node { id: 0, v: Val::Null },
            2 => Node { id: 16, v: Val::Bytes(gen::bytes(r, 20)) },
            _ => Node { id: 22, v: Val::Seq(vec![Node { id: 17, v: Val::Str(gen::string(r, 10)) }]) },
        }
    };
    let decodable = reg.kinds.get(&id) == Some(&n.kind());
    let mut steps = String::new();
    for i in 0..if c.interp { 5 } else { 25 } {
        match rng.below(8) {
            0 if decodable => {
                // decode over it
                let m = n.clone();
                let mut m2 = m.clone();
                let mut t2 = build(&m2, &mut rng);
                touch(&mut rng, &mut m2, t2.as_mut(), &fresh);
                let b = bytes_of(&m2);
                if dec_all(&reg, &b).map(|d| d.node == m2).unwrap_or(false) {
                    f.deserialize_into(&mut ByteArrayReader::new(&b), t.as_mut()).map_err(|e| format!("decoding {} over {}: {:?}", m2.brief(), n.brief(), e))?;
                    n = m2;
                    steps.push_str(" decode");
                    c.n("decodes over", 1);
                }
            }
            _ => {
                touch(&mut rng, &mut n, t.as_mut(), &fresh);
                steps.push_str(" set");
                c.n("changes", 1);
            }
        }
        let o = observe(t.as_ref());
        ck!(o == n, "after{} (from {}) a tag holds {} instead of {}", steps, first, o.brief(), n.brief());
        ck!(t.id() == id, "after{} the id {} became {}", steps, id, t.id());
        let want = bytes_of(&n);
        if i % 2 == 0 || want.len() < 2000 {
            let b = ser(t.as_ref())?;
            ck!(b == want, "after{} (from {}) {} is written differently: {}", steps, first, n.brief(), diff(&want, &b));
            let new = build(&n, &mut rng);
            ck!(ser(new.as_ref())? == b, "a new tag with the same values is written differently");
            ck!(t.size() == b.len() as u64, "after{} the size is {} instead of {}", steps, t.size(), b.len());
        }
        c.case(fnv(&want));
    }
    c.n(&format!("changed: {:?}", n.kind()), 1);
    c.sample(|| format!("{} after{}: {}", first, steps, n.brief()));
    Ok(())
}
