//! C21: conversions of keys and objects to text and bytes and back.
use crate::guard;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapcd::base32::{from_base32, to_base32};
use snapcd::{commit::Commit, dir::FSItem, key::Key, Keyish, Object};
use std::convert::TryInto;
use std::str::FromStr;
use vc::fmt;
use vc::runner::{part, Check, Env, Fail, Out, Res, Tier};
use vc::viol;

// ---- keys ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeyCase {
    a: Vec<u8>,
    b: Vec<u8>,
    case: u64,
    text: String,
    bytes: Vec<u8>,
    max: usize,
}

fn key_cases(_: Tier) -> BoxedStrategy<KeyCase> {
    let kb = || {
        prop_oneof![
            3 => vec(any::<u8>(), 32),
            2 => vec(prop_oneof![Just(0u8), Just(255), Just(1), Just(128)], 32),
        ]
    };
    (kb(), kb(), any::<u64>(), prop_oneof![
            any::<String>(),
            "[a-zA-Z2-7]{0,60}",
            "b[a-z2-7]{40,60}",
            // One character that is none of the alphabet (or just another one of it)
            ("[a-zA-Z2-7]{0,8}", prop_oneof![0u8..128, any::<u8>()], "[a-zA-Z2-7]{0,52}").prop_map(|(a, c, b)| format!("{}{}{}", a, c as char, b)),
        ], vec(any::<u8>(), 0..45), 0usize..400)
        .prop_map(|(a, b, case, text, bytes, max)| KeyCase { a, b, case, text, bytes, max })
        .boxed()
}

fn k32(v: &[u8]) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(v);
    k
}

fn run_keys(_: &Env, c: &KeyCase) -> Res {
    match guard(|| run_keys_(c)) {
        Ok(r) => r,
        Err(p) => viol!("panic: {}", p),
    }
}

fn run_keys_(c: &KeyCase) -> Res {
    let mut out = Out::default();
    let (a, b) = (k32(&c.a), k32(&c.b));
    let (ka, kb) = (Key::Blake3B(a), Key::Blake3B(b));
    let (ta, tb) = (ka.as_user_key(), kb.as_user_key());
    if ta != fmt::user_key(&a) || ka.to_string() != ta {
        viol!("{:?} is printed as {} and {}, expected {}", a, ta, ka, fmt::user_key(&a));
    }
    if ka.as_db_key() != fmt::dbkey(&a) || Key::from_db_key(&ka.as_db_key()).ok() != Some(ka) {
        viol!("{:?} does not come back from its database form", a);
    }
    if (ka == kb) != (ta == tb) || ka.cmp(&kb) != a.cmp(&b) || ka.as_db_key().cmp(&kb.as_db_key()) != a.cmp(&b) {
        viol!("comparing {:?} and {:?}", a, b);
    }
    let up: String = ta
        .chars()
        .enumerate()
        .map(|(i, ch)| if i > 0 && c.case >> (i % 64) & 1 == 1 { ch.to_ascii_uppercase() } else { ch })
        .collect();
    match Keyish::from_str(&up) {
        Ok(Keyish::Key(_, v)) if v == fmt::dbkey(&a) => {}
        x => viol!("{} is parsed as {:?}", up, x),
    }
    // Bytes
    match (Key::from_db_key(&c.bytes), fmt::from_dbkey(&c.bytes)) {
        (Ok(Key::Blake3B(g)), Some(w)) if g == w => {}
        (Err(_), None) => {}
        (g, w) => viol!("database key {:?}: {:?}, expected {:?}", c.bytes, g, w),
    }
    let mut long = fmt::dbkey(&a);
    long.push(c.bytes.first().copied().unwrap_or(0));
    if Key::from_db_key(&long).is_ok() || Key::from_db_key(&long[..32]).is_ok() {
        viol!("a database key of a wrong length is taken");
    }
    let e = to_base32(&c.bytes);
    if e != fmt::base32(&c.bytes) {
        viol!("{:?} encodes as {}, expected {}", c.bytes, e, fmt::base32(&c.bytes));
    }
    for t in [e.clone(), e.to_ascii_uppercase()] {
        match from_base32(&t, c.bytes.len() * 8) {
            Ok(v) if v.len() == c.bytes.len() * 8 && v.as_slice() == &c.bytes[..] => {}
            x => viol!("{:?} encodes as {}, which decodes to {:?}", c.bytes, t, x),
        }
    }
    // Arbitrary text
    let valid = c.text.bytes().all(|x| x.is_ascii_alphabetic() || (b'2'..=b'7').contains(&x));
    match from_base32(&c.text, c.max) {
        Ok(v) => {
            if !valid {
                viol!("{:?} is taken as base32", c.text);
            }
            if v.len() != (c.text.len() * 5).min(c.max) {
                viol!("{:?} decodes to {} bits, at most {} wanted", c.text, v.len(), c.max);
            }
            let bits: Vec<bool> = v.iter().map(|x| *x).collect();
            let table = b"abcdefghijklmnopqrstuvwxyz234567";
            for (i, bit) in bits.iter().enumerate() {
                let ch = c.text.as_bytes()[i / 5].to_ascii_lowercase();
                let n = table.iter().position(|x| *x == ch).unwrap();
                if (n >> (4 - i % 5) & 1 == 1) != *bit {
                    viol!("{:?}: bit {} is wrong", c.text, i);
                }
            }
        }
        Err(_) if !valid => {}
        Err(e) => viol!("{:?}: {}", c.text, e),
    }
    let _ = Keyish::from_str(&c.text);
    out.nontrivial = a != b;
    Ok(out)
}

// ---- objects ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ObjCase {
    kind: u8,
    data: Vec<u8>,
    keys: Vec<u8>,
    names: Vec<String>,
    size: u64,
    extra: Vec<(String, String)>,
    /// (place, what)
    mutations: Vec<(u16, u8, u8)>,
    raw: Vec<u8>,
}

fn obj_cases(_: Tier) -> BoxedStrategy<ObjCase> {
    let n = prop_oneof!["[a-z]{0,5}", any::<String>(), "[a-z]{20,300}"];
    (
        0u8..8,
        vec(any::<u8>(), 0..300),
        vec(any::<u8>(), 0..26),
        vec(n.clone(), 0..26),
        prop_oneof![0u64..30, any::<u64>(), (0u32..64).prop_map(|b| 1u64 << b)],
        prop::collection::btree_map(n.clone(), n, 0..3).prop_map(|m| m.into_iter().collect::<Vec<_>>()),
        prop_oneof![1 => Just(vec![]), 2 => vec((any::<u16>(), 0u8..6, any::<u8>()), 1..4)],
        prop_oneof![Just(vec![]), vec(any::<u8>(), 1..60), (any::<u8>(), 100usize..3000).prop_map(|(b, n)| vec![b; n])],
    )
        .prop_map(|(kind, data, keys, names, size, extra, mutations, raw)| ObjCase { kind, data, keys, names, size, extra, mutations, raw })
        .boxed()
}

fn mutate(v: &mut Vec<u8>, ms: &[(u16, u8, u8)]) {
    for (at, what, b) in ms {
        if v.is_empty() {
            v.push(*b);
            continue;
        }
        let i = *at as usize * v.len() / 65536;
        match what {
            0 => v[i] = *b,
            1 => v[i] ^= 1 << (b % 8),
            2 => v.truncate(i),
            3 => v.insert(i, *b),
            4 => {
                v.remove(i);
            }
            _ => {
                let n = (*b as usize % 16).min(v.len() - i);
                let s: Vec<u8> = v[i..i + n].to_vec();
                v.splice(i..i, s);
            }
        }
    }
}

/// Everything that can be done with bytes that claim to be an object. Returns whether they decode.
fn feed(bytes: &[u8]) -> Result<bool, Fail> {
    let o: Object = match serde_cbor::from_slice(bytes) {
        Ok(o) => o,
        Err(_) => return Ok(false),
    };
    let shown = format!("{:?}", o);
    let enc = match serde_cbor::to_vec(&o) {
        Ok(e) => e,
        Err(e) => viol!("{:?} decodes but does not encode: {}", shown, e),
    };
    match serde_cbor::from_slice::<Object>(&enc) {
        Ok(p) if format!("{:?}", p) == shown => {}
        x => viol!("{} comes back as {:?}", shown, x),
    }
    let again = || serde_cbor::from_slice::<Object>(bytes).unwrap();
    let item: Result<FSItem, _> = again().try_into();
    if let Ok(i) = item {
        let s = format!("{:?}", i);
        let back: Result<Object, _> = i.try_into();
        let back = match back {
            Ok(b) => b,
            Err(e) => viol!("item {} does not encode: {}", s, e),
        };
        match TryInto::<FSItem>::try_into(back) {
            Ok(j) if format!("{:?}", j) == s => {}
            x => viol!("item {} comes back as {:?}", s, x),
        }
    }
    let c: Result<Commit, _> = again().try_into();
    if let Ok(c) = c {
        let (t, p, m) = (c.tree(), c.parents().to_vec(), c.attrs().message().to_string());
        let back: Result<Object, _> = c.try_into();
        let back = match back {
            Ok(b) => b,
            Err(e) => viol!("commit {:?} does not encode: {}", m, e),
        };
        match TryInto::<Commit>::try_into(back) {
            Ok(d) if d.tree() == t && d.parents() == &p[..] && d.attrs().message() == m => {}
            x => viol!("commit {:?} comes back as {:?}", m, x),
        }
    }
    Ok(true)
}

fn run_objs(_: &Env, c: &ObjCase) -> Res {
    match guard(|| run_objs_(c)) {
        Ok(r) => r,
        Err(p) => viol!("panic: {}", p),
    }
}

fn run_objs_(c: &ObjCase) -> Res {
    let mut out = Out::default();
    let keys: Vec<fmt::K> = c.keys.iter().enumerate().map(|(i, b)| { let mut k = [*b; 32]; k[3] = i as u8; k }).collect();
    let types = ["FileBlobTree", "FileBlob", "Commit", "FSItemDir", "FSItemFile", "FSItemDir", "Commit", "FileBlob"];
    let t = types[c.kind as usize];
    let data = match t {
        "FSItemDir" => fmt::encode_fsitem(c.size, true, &c.names),
        "FSItemFile" => fmt::encode_fsitem(c.size, false, &[]),
        "Commit" => fmt::encode_commit_attrs(c.names.first().map(|x| &x[..]).unwrap_or(""), &c.extra),
        _ => c.data.clone(),
    };
    let bytes = fmt::encode_object(&data, &keys, t);
    let o: Object = match serde_cbor::from_slice(&bytes) {
        Ok(o) => o,
        Err(e) => viol!("a {} of {} keys is refused: {}", t, keys.len(), e),
    };
    if o.data() != &data[..] || format!("{:?}", o.objtype()) != t {
        viol!("decodes to other data or type {:?}", o.objtype());
    }
    let want: Vec<Key> = keys.iter().map(|k| Key::Blake3B(*k)).collect();
    if o.keys() != &want[..] {
        viol!("decodes to keys {:?}", o.keys());
    }
    match serde_cbor::to_vec(&o) {
        Ok(b) if b == bytes => {}
        x => viol!("{:?} does not encode to the same bytes: {:?}", o, x.map(|v| v.len())),
    }
    let made = Object::new(&data, &want, o.objtype());
    let made2 = Object::new_owned(data.clone(), want.clone(), o.objtype());
    if serde_cbor::to_vec(&made).ok().as_ref() != Some(&bytes) || serde_cbor::to_vec(&made2).ok().as_ref() != Some(&bytes) {
        viol!("a new object of type {} encodes to other bytes", t);
    }
    match t {
        "FSItemDir" | "FSItemFile" => {
            let i: Result<FSItem, _> = made.try_into();
            let i = match i {
                Ok(i) => i,
                Err(e) => viol!("a {} is refused: {}", t, e),
            };
            let back: Result<Object, _> = i.try_into();
            match back.map_err(|e| e.to_string()).and_then(|b| serde_cbor::to_vec(&b).map_err(|e| e.to_string())) {
                Ok(b) if b == bytes => {}
                x => viol!("a {} comes back differently: {:?}", t, x.map(|v| v.len())),
            }
        }
        "Commit" => {
            let i: Result<Commit, _> = made.try_into();
            match i {
                Ok(cm) => {
                    if want.is_empty() {
                        viol!("a commit without tree is taken");
                    }
                    let ps: Vec<Key> = cm.parents().iter().map(|k| k.inner()).collect();
                    if cm.tree().inner() != want[0] || ps != want[1..] || Some(cm.attrs().message()) != c.names.first().map(|x| &x[..]).or(Some("")) {
                        viol!("commit decodes to {:?}", cm);
                    }
                    let back: Result<Object, _> = cm.try_into();
                    let back = match back {
                        Ok(b) => b,
                        Err(e) => viol!("commit does not encode: {}", e),
                    };
                    let b = serde_cbor::to_vec(&back).unwrap_or_default();
                    if b.len() != bytes.len() || (c.extra.len() < 2 && b != bytes) {
                        viol!("commit comes back differently");
                    }
                }
                Err(e) if !want.is_empty() => viol!("a commit is refused: {}", e),
                Err(_) => {}
            }
        }
        _ => {}
    }
    feed(&bytes)?;
    // Damaged forms: of the outer record, and of the inner one
    let mut b = bytes.clone();
    mutate(&mut b, &c.mutations);
    let d1 = feed(&b)?;
    let mut inner = data;
    mutate(&mut inner, &c.mutations);
    feed(&fmt::encode_object(&inner, &keys, t))?;
    feed(&fmt::encode_object(&c.raw, &keys, t))?;
    feed(&c.raw)?;
    out.label(!c.mutations.is_empty() && d1 && b != bytes, "mutant-decodes");
    out.label(!c.mutations.is_empty() && !d1, "mutant-refused");
    out.nontrivial = !c.mutations.is_empty() || !keys.is_empty();
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        rule: "Keys (random and extreme), byte strings and texts through every conversion, judged against an independent \
               implementation; objects of every kind with generated data, keys and names, and damaged forms of them. \
               Non-trivial: two different keys; an object with keys or a damaged form.",
        assumptions: vec!["an unknown object type decodes as Unknown, whatever its name"],
        parts: vec![
            Box::new(part("keys", 30000, 500000, key_cases, run_keys)),
            Box::new(part("objects", 20000, 400000, obj_cases, run_objs)),
        ],
    }
}
