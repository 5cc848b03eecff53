//! Independent implementation of the stored format: encoder, chunker, decoder, soundness check.
use crate::db::Db;
use crate::tree::M;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type K = [u8; 32];
pub type Objs = BTreeMap<K, Arc<Vec<u8>>>;

const ALPHABET: &[u8; 32] = b"abcdefghijklmnopqrstuvwxyz234567";

pub fn base32(b: &[u8]) -> String {
    let mut s = String::new();
    let (mut acc, mut n) = (0u32, 0);
    for &x in b {
        acc = (acc << 8) | x as u32;
        n += 8;
        while n >= 5 {
            n -= 5;
            s.push(ALPHABET[(acc >> n) as usize & 31] as char);
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        s.push(ALPHABET[(acc << (5 - n)) as usize & 31] as char);
    }
    s
}

pub fn user_key(k: &K) -> String {
    format!("b{}", base32(k))
}

pub fn user_key_db(k: &[u8]) -> String {
    if k.len() == 33 && k[0] == 1 {
        format!("b{}", base32(&k[1..]))
    } else {
        format!("?{:?}", k)
    }
}

/// The 32 bytes a printed key stands for.
pub fn parse_key(s: &str) -> Option<K> {
    let s = s.strip_prefix('b')?;
    if s.len() != 52 {
        return None;
    }
    let mut bits: Vec<bool> = Vec::new();
    for c in s.bytes() {
        let v = ALPHABET.iter().position(|x| *x == c)?;
        for i in (0..5).rev() {
            bits.push(v >> i & 1 == 1);
        }
    }
    let mut k = [0u8; 32];
    for i in 0..256 {
        if bits[i] {
            k[i / 8] |= 0x80 >> (i % 8);
        }
    }
    if user_key(&k)[1..] != *s {
        return None;
    }
    Some(k)
}

pub fn dbkey(k: &K) -> Vec<u8> {
    let mut v = vec![1u8];
    v.extend_from_slice(k);
    v
}

pub fn from_dbkey(k: &[u8]) -> Option<K> {
    if k.len() == 33 && k[0] == 1 {
        let mut r = [0u8; 32];
        r.copy_from_slice(&k[1..]);
        Some(r)
    } else {
        None
    }
}

// ---- CBOR ----

fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n < 256 {
        out.push(m | 24);
        out.push(n as u8);
    } else if n < 65536 {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n < 1 << 32 {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}

fn text(out: &mut Vec<u8>, s: &str) {
    head(out, 3, s.len() as u64);
    out.extend_from_slice(s.as_bytes());
}

pub fn encode_object(data: &[u8], keys: &[K], objtype: &str) -> Vec<u8> {
    let mut o = Vec::with_capacity(data.len() + keys.len() * 80 + 64);
    head(&mut o, 5, 3);
    text(&mut o, "data");
    head(&mut o, 2, data.len() as u64);
    o.extend_from_slice(data);
    text(&mut o, "keys");
    head(&mut o, 4, keys.len() as u64);
    for k in keys {
        head(&mut o, 5, 1);
        text(&mut o, "Blake3B");
        head(&mut o, 4, 32);
        for b in k {
            head(&mut o, 0, *b as u64);
        }
    }
    text(&mut o, "objtype");
    text(&mut o, objtype);
    o
}

pub fn encode_fsitem(size: u64, is_dir: bool, names: &[String]) -> Vec<u8> {
    let mut o = Vec::new();
    head(&mut o, 5, 3);
    text(&mut o, "size");
    head(&mut o, 0, size);
    text(&mut o, "itemtype");
    text(&mut o, if is_dir { "Dir" } else { "File" });
    text(&mut o, "children_names");
    head(&mut o, 4, names.len() as u64);
    for n in names {
        text(&mut o, n);
    }
    o
}

pub fn encode_commit_attrs(message: &str, extra: &[(String, String)]) -> Vec<u8> {
    let mut o = Vec::new();
    head(&mut o, 5, 2);
    text(&mut o, "message");
    text(&mut o, message);
    text(&mut o, "extra");
    head(&mut o, 5, extra.len() as u64);
    for (k, v) in extra {
        text(&mut o, k);
        text(&mut o, v);
    }
    o
}

pub fn put(objs: &mut Objs, bytes: Vec<u8>) -> K {
    let k = *blake3::hash(&bytes).as_bytes();
    objs.insert(k, Arc::new(bytes));
    k
}

// ---- chunking ----

/// The sequence of cuts of a file: (length of the blob, leading zeros of the rolling hash there).
///
/// Blocks of 64 KiB are looked at one after another. What is left of a block, as long as it is more than
/// 32 KiB, is cut after 32 KiB, otherwise after the next match of the rolling hash, otherwise it is
/// used up. A blob ends at a cut if at least 32 KiB were collected. The hash runs over what was left at
/// each step up to the match (or the end), whether the cut is there or not.
pub fn chunk(data: &[u8]) -> (Vec<(Vec<u8>, u32)>, Vec<u8>) {
    let table = &gearhash::DEFAULT_TABLE;
    let mut hash: u64 = 0;
    let mut blobs = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for block in data.chunks(65536) {
        let mut rest = block;
        loop {
            let mut m = None;
            for (i, b) in rest.iter().enumerate() {
                hash = (hash << 1).wrapping_add(table[*b as usize]);
                if hash >> 51 == 0 {
                    m = Some(i + 1);
                    break;
                }
            }
            let cut = if rest.len() > 32768 { Some(32768) } else { m };
            match cut {
                Some(c) => {
                    cur.extend_from_slice(&rest[..c]);
                    rest = &rest[c..];
                    if cur.len() >= 32768 {
                        blobs.push((std::mem::take(&mut cur), hash.leading_zeros()));
                    }
                }
                None => {
                    cur.extend_from_slice(rest);
                    break;
                }
            }
        }
    }
    (blobs, cur)
}

/// Stores a file's content, gives the key of its blob (tree).
pub fn put_content(objs: &mut Objs, data: &[u8]) -> K {
    put_content_info(objs, data).0
}

/// Also tells how deep the tree is (0: a single blob).
pub fn put_content_info(objs: &mut Objs, data: &[u8]) -> (K, usize) {
    let (blobs, last) = chunk(data);
    if blobs.is_empty() {
        return (put(objs, encode_object(&last, &[], "FileBlob")), 0);
    }
    let mut levels: Vec<Vec<K>> = vec![vec![]; 5];
    let tree = |objs: &mut Objs, ks: &[K]| put(objs, encode_object(&[], ks, "FileBlobTree"));
    for (b, zeros) in blobs {
        levels[0].push(put(objs, encode_object(&b, &[], "FileBlob")));
        for l in 0..4 {
            if zeros > 13 + 7 * (l as u32 + 1) || levels[l].len() >= 512 {
                let ks = std::mem::take(&mut levels[l]);
                let k = tree(objs, &ks);
                levels[l + 1].push(k);
            } else {
                break;
            }
        }
    }
    if !last.is_empty() {
        levels[0].push(put(objs, encode_object(&last, &[], "FileBlob")));
    }
    for l in 0..4 {
        let k = tree(objs, &levels[l]);
        if levels[l].len() == 1 && levels[l + 1..].iter().all(|x| x.is_empty()) {
            // The tree object just made is stored, but the only key in it stands for the file.
            return (levels[l][0], l);
        }
        levels[l + 1].push(k);
    }
    (tree(objs, &levels[4]), 5)
}

pub fn put_tree(objs: &mut Objs, m: &M) -> K {
    match m {
        M::F(b) => {
            let c = put_content(objs, b);
            put(objs, encode_object(&encode_fsitem(b.len() as u64, false, &[]), &[c], "FSItemFile"))
        }
        M::D(d) => {
            let mut keys = vec![];
            let mut names = vec![];
            for (n, c) in d {
                keys.push(put_tree(objs, c));
                names.push(n.clone());
            }
            let data = encode_fsitem(keys.len() as u64, true, &names);
            put(objs, encode_object(&data, &keys, "FSItemDir"))
        }
    }
}

pub fn put_commit(objs: &mut Objs, tree: K, parents: &[K], message: &str) -> K {
    let mut ps = parents.to_vec();
    ps.sort();
    let mut keys = vec![tree];
    keys.extend(ps);
    put(objs, encode_object(&encode_commit_attrs(message, &[]), &keys, "Commit"))
}

// ---- decoding ----

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    Neg(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<V>),
    Map(Vec<(V, V)>),
    Other(u8),
}

pub fn decode(b: &[u8]) -> Option<(V, usize)> {
    dec(b, 0, 0)
}

fn dec(b: &[u8], at: usize, depth: u32) -> Option<(V, usize)> {
    if depth > 60 {
        return None;
    }
    let h = *b.get(at)?;
    let major = h >> 5;
    let (n, mut at) = match h & 31 {
        x @ 0..=23 => (x as u64, at + 1),
        x @ 24..=27 => {
            let l = 1usize << (x - 24);
            let s = b.get(at + 1..at + 1 + l)?;
            (s.iter().fold(0u64, |a, c| a << 8 | *c as u64), at + 1 + l)
        }
        _ => return None,
    };
    Some(match major {
        0 => (V::U(n), at),
        1 => (V::Neg(n), at),
        2 | 3 => {
            let s = b.get(at..at.checked_add(n as usize)?)?.to_vec();
            at += n as usize;
            (if major == 2 { V::B(s) } else { V::T(String::from_utf8(s).ok()?) }, at)
        }
        4 => {
            let mut v = vec![];
            for _ in 0..n {
                let (x, a) = dec(b, at, depth + 1)?;
                v.push(x);
                at = a;
            }
            (V::A(v), at)
        }
        5 => {
            let mut v = vec![];
            for _ in 0..n {
                let (x, a) = dec(b, at, depth + 1)?;
                let (y, a) = dec(b, a, depth + 1)?;
                v.push((x, y));
                at = a;
            }
            (V::Map(v), at)
        }
        _ => (V::Other(h), at),
    })
}

pub fn field<'a>(v: &'a V, n: &str) -> Option<&'a V> {
    match v {
        V::Map(m) => {
            let mut i = m.iter().filter(|x| x.0 == V::T(n.to_string()));
            let r = i.next()?;
            if i.next().is_some() {
                return None;
            }
            Some(&r.1)
        }
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub keys: Vec<K>,
    pub objtype: String,
}

pub fn decode_object(b: &[u8]) -> Result<Obj, String> {
    let (v, n) = decode(b).ok_or("not CBOR")?;
    if n != b.len() {
        return Err("bytes after the record".into());
    }
    match &v {
        V::Map(m) if m.len() == 3 => {}
        _ => return Err("not a map of three fields".into()),
    }
    let data = match field(&v, "data") {
        Some(V::B(d)) => d.clone(),
        _ => return Err("no data".into()),
    };
    let objtype = match field(&v, "objtype") {
        Some(V::T(d)) => d.clone(),
        _ => return Err("no objtype".into()),
    };
    let mut keys = vec![];
    match field(&v, "keys") {
        Some(V::A(a)) => {
            for k in a {
                match k {
                    V::Map(m) if m.len() == 1 && m[0].0 == V::T("Blake3B".into()) => match &m[0].1 {
                        V::A(bs) if bs.len() == 32 => {
                            let mut kk = [0u8; 32];
                            for (i, x) in bs.iter().enumerate() {
                                match x {
                                    V::U(x) if *x < 256 => kk[i] = *x as u8,
                                    _ => return Err("key byte".into()),
                                }
                            }
                            keys.push(kk);
                        }
                        _ => return Err("key length".into()),
                    },
                    _ => return Err("key kind".into()),
                }
            }
        }
        _ => return Err("no keys".into()),
    }
    Ok(Obj { data, keys, objtype })
}

#[derive(Clone, Debug)]
pub struct Item {
    pub size: u64,
    pub is_dir: bool,
    pub names: Vec<String>,
}

pub fn decode_item(data: &[u8]) -> Result<Item, String> {
    let (v, n) = decode(data).ok_or("item: not CBOR")?;
    if n != data.len() {
        return Err("item: bytes after the record".into());
    }
    let size = match field(&v, "size") {
        Some(V::U(x)) => *x,
        _ => return Err("item: size".into()),
    };
    let is_dir = match field(&v, "itemtype") {
        Some(V::T(x)) if x == "Dir" => true,
        Some(V::T(x)) if x == "File" => false,
        _ => return Err("item: itemtype".into()),
    };
    let mut names = vec![];
    match field(&v, "children_names") {
        Some(V::A(a)) => {
            for x in a {
                match x {
                    V::T(s) => names.push(s.clone()),
                    _ => return Err("item: name".into()),
                }
            }
        }
        _ => return Err("item: children_names".into()),
    }
    Ok(Item { size, is_dir, names })
}

pub fn commit_message(data: &[u8]) -> Result<String, String> {
    let (v, n) = decode(data).ok_or("commit: not CBOR")?;
    if n != data.len() {
        return Err("commit: bytes after the record".into());
    }
    match (field(&v, "message"), field(&v, "extra")) {
        (Some(V::T(m)), Some(V::Map(_))) => Ok(m.clone()),
        _ => Err("commit: fields".into()),
    }
}

/// All objects by key, decoded; and whether each is sound by itself and refers to what it should.
pub fn fsck(db: &Db) -> Result<BTreeMap<K, Obj>, String> {
    let mut m = BTreeMap::new();
    for (k, v) in &db.objects {
        let k = from_dbkey(k).ok_or_else(|| format!("malformed database key {:?}", k))?;
        if *blake3::hash(v).as_bytes() != k {
            return Err(format!("object {} does not hash to its key", user_key(&k)));
        }
        let o = decode_object(v).map_err(|e| format!("object {}: {}", user_key(&k), e))?;
        m.insert(k, o);
    }
    // Lengths of contents, bottom up with memo.
    let mut len: BTreeMap<K, u64> = BTreeMap::new();
    fn length(k: &K, m: &BTreeMap<K, Obj>, memo: &mut BTreeMap<K, u64>) -> Result<u64, String> {
        if let Some(l) = memo.get(k) {
            return Ok(*l);
        }
        let o = m.get(k).ok_or_else(|| format!("missing object {}", user_key(k)))?;
        let l = match o.objtype.as_str() {
            "FileBlob" => {
                if !o.keys.is_empty() {
                    return Err(format!("blob {} has keys", user_key(k)));
                }
                o.data.len() as u64
            }
            "FileBlobTree" => {
                if !o.data.is_empty() {
                    return Err(format!("blob tree {} has data", user_key(k)));
                }
                let mut s = 0;
                for c in &o.keys {
                    s += length(c, m, memo)?;
                }
                s
            }
            t => return Err(format!("{} used as content, but is a {}", user_key(k), t)),
        };
        memo.insert(*k, l);
        Ok(l)
    }
    for (k, o) in &m {
        let e = |s: String| Err(format!("object {} ({}): {}", user_key(k), o.objtype, s));
        for c in &o.keys {
            if !m.contains_key(c) {
                return e(format!("refers to {} which is not stored", user_key(c)));
            }
        }
        match o.objtype.as_str() {
            "FileBlob" | "FileBlobTree" => {
                if let Err(s) = length(k, &m, &mut len) {
                    return e(s);
                }
            }
            "FSItemFile" => {
                let i = match decode_item(&o.data) {
                    Ok(i) => i,
                    Err(s) => return e(s),
                };
                if i.is_dir || o.keys.len() != 1 || !i.names.is_empty() {
                    return e("not the form of a file".into());
                }
                match length(&o.keys[0], &m, &mut len) {
                    Ok(l) if l == i.size => {}
                    Ok(l) => return e(format!("size {} but content of {}", i.size, l)),
                    Err(s) => return e(s),
                }
            }
            "FSItemDir" => {
                let i = match decode_item(&o.data) {
                    Ok(i) => i,
                    Err(s) => return e(s),
                };
                if !i.is_dir || i.names.len() != o.keys.len() || i.size != o.keys.len() as u64 {
                    return e(format!("not the form of a directory: {} keys, {:?}", o.keys.len(), i));
                }
                let set: BTreeSet<&String> = i.names.iter().collect();
                if set.len() != i.names.len() {
                    return e("duplicate names".into());
                }
                for n in &i.names {
                    if n.is_empty() || n == "." || n == ".." || n.contains('/') {
                        return e(format!("bad name {:?}", n));
                    }
                }
                for c in &o.keys {
                    let t = &m[c].objtype;
                    if t != "FSItemDir" && t != "FSItemFile" {
                        return e(format!("has a child of type {}", t));
                    }
                }
            }
            "Commit" => {
                if let Err(s) = commit_message(&o.data) {
                    return e(s);
                }
                if o.keys.is_empty() {
                    return e("no tree".into());
                }
                let t = &m[&o.keys[0]].objtype;
                if t != "FSItemDir" && t != "FSItemFile" {
                    return e(format!("tree is a {}", t));
                }
                for p in &o.keys[1..] {
                    if m[p].objtype != "Commit" {
                        return e(format!("parent is a {}", m[p].objtype));
                    }
                }
            }
            t => return e(format!("unknown type {}", t)),
        }
    }
    Ok(m)
}

/// Reads a stored tree back with this implementation.
pub fn read_model(m: &BTreeMap<K, Obj>, k: &K) -> Result<M, String> {
    let o = m.get(k).ok_or("missing")?;
    match o.objtype.as_str() {
        "FSItemDir" => {
            let i = decode_item(&o.data)?;
            let mut d = BTreeMap::new();
            for (n, c) in i.names.iter().zip(&o.keys) {
                d.insert(n.clone(), read_model(m, c)?);
            }
            Ok(M::D(d))
        }
        "FSItemFile" => Ok(M::F(Arc::new(read_content(m, &o.keys[0])?))),
        t => Err(format!("unexpected {}", t)),
    }
}

pub fn read_content(m: &BTreeMap<K, Obj>, k: &K) -> Result<Vec<u8>, String> {
    let o = m.get(k).ok_or("missing")?;
    match o.objtype.as_str() {
        "FileBlob" => Ok(o.data.clone()),
        "FileBlobTree" => {
            let mut v = vec![];
            for c in &o.keys {
                v.extend(read_content(m, c)?);
            }
            Ok(v)
        }
        t => Err(format!("unexpected {}", t)),
    }
}
