//! Directory trees: compact generated form, expanded model, and the real file system.
use crate::runner::Fail;
use crate::windows::WINDOWS;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Seg {
    Bytes(Vec<u8>),
    Text(String),
    Fill(u8, u32),
    Rnd(u32, u32),
    /// 64 KiB blocks of zeros, each holding one window that makes a cut of that tree level
    /// (9: no window at all).
    Blocks(Vec<u8>),
    /// n such blocks of one level
    Many(u8, u32),
}

pub type Content = Vec<Seg>;

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn rnd_bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(n);
    v
}

fn block(out: &mut Vec<u8>, level: u8, salt: usize) {
    let base = out.len();
    out.resize(base + 65536, 0);
    let ws: Vec<_> = WINDOWS.iter().filter(|w| w.0 == level).collect();
    if ws.is_empty() {
        return;
    }
    let w = ws[salt % ws.len()];
    // Anywhere in the block, but with at least 64 zero bytes before it.
    let at = base + 64 + (salt * 7919) % (65536 - 192);
    out[at..at + 64].copy_from_slice(&w.2);
}

pub fn expand(c: &Content) -> Vec<u8> {
    let mut v = Vec::new();
    for s in c {
        match s {
            Seg::Bytes(b) => v.extend_from_slice(b),
            Seg::Text(t) => v.extend_from_slice(t.as_bytes()),
            Seg::Fill(b, n) => v.resize(v.len() + *n as usize, *b),
            Seg::Rnd(s, n) => v.extend(rnd_bytes(*s as u64, *n as usize)),
            Seg::Blocks(l) => {
                for (i, x) in l.iter().enumerate() {
                    block(&mut v, *x, i);
                }
            }
            Seg::Many(l, n) => {
                for i in 0..*n {
                    block(&mut v, *l, i as usize);
                }
            }
        }
    }
    v
}

pub fn small_bytes() -> BoxedStrategy<Content> {
    prop_oneof![
        2 => Just(vec![]),
        3 => "[a-z \n]{0,40}".prop_map(|s| vec![Seg::Text(s)]),
        2 => vec(any::<u8>(), 0..40).prop_map(|b| vec![Seg::Bytes(b)]),
        1 => (any::<u8>(), 1u32..3000).prop_map(|(b, n)| vec![Seg::Fill(b, n)]),
        1 => (any::<u32>(), 1u32..3000).prop_map(|(b, n)| vec![Seg::Rnd(b, n)]),
    ]
    .boxed()
}

/// Sizes at and around the places where the chunker does something.
pub fn edge_size() -> BoxedStrategy<u32> {
    let edges: Vec<u32> = vec![
        8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 98303, 98304, 98305,
        131071, 131072, 131073, 163840, 196608, 196609, 229376, 262144, 327680,
    ];
    prop_oneof![
        3 => prop::sample::select(edges),
        1 => 0u32..400_000,
    ]
    .boxed()
}

pub fn medium_content() -> BoxedStrategy<Content> {
    prop_oneof![
        2 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
        1 => (any::<u8>(), edge_size()).prop_map(|(s, n)| vec![Seg::Fill(s, n)]),
        2 => vec(prop_oneof![Just(0u8), Just(1), Just(2), Just(3), Just(4), Just(9)], 1..6)
            .prop_map(|l| vec![Seg::Blocks(l)]),
    ]
    .boxed()
}

/// Large contents, with cuts at all levels of the blob tree.
pub fn large_content() -> BoxedStrategy<Content> {
    let lv = || prop_oneof![2 => Just(0u8), 3 => Just(1u8), 3 => Just(2), 3 => Just(3), 3 => Just(4), 1 => Just(9)];
    let seg = prop_oneof![
        6 => vec(lv(), 1..14).prop_map(Seg::Blocks),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| Seg::Rnd(s, n)),
        1 => (any::<u8>(), edge_size()).prop_map(|(s, n)| Seg::Fill(s, n)),
        1 => vec(any::<u8>(), 0..40).prop_map(Seg::Bytes),
    ];
    vec(seg, 1..4).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Node {
    F(Content),
    D(BTreeMap<String, Node>),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum M {
    F(Arc<Vec<u8>>),
    D(BTreeMap<String, M>),
}

impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            M::F(b) => {
                if b.len() <= 60 {
                    write!(f, "File({:?})", String::from_utf8_lossy(b))
                } else {
                    write!(f, "File({} bytes, {})", b.len(), &blake3::hash(b).to_hex()[..8])
                }
            }
            M::D(m) => f.debug_map().entries(m.iter()).finish(),
        }
    }
}

impl M {
    pub fn empty() -> M {
        M::D(BTreeMap::new())
    }
    pub fn file(b: &[u8]) -> M {
        M::F(Arc::new(b.to_vec()))
    }
    pub fn is_dir(&self) -> bool {
        matches!(self, M::D(_))
    }
    pub fn dir(&self) -> &BTreeMap<String, M> {
        match self {
            M::D(m) => m,
            _ => panic!("not a directory"),
        }
    }
    pub fn dir_mut(&mut self) -> &mut BTreeMap<String, M> {
        match self {
            M::D(m) => m,
            _ => panic!("not a directory"),
        }
    }
    pub fn get(&self, path: &str) -> Option<&M> {
        let mut cur = self;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            match cur {
                M::D(m) => cur = m.get(c)?,
                _ => return None,
            }
        }
        Some(cur)
    }
    /// All paths below the root, directories too (the root itself is left out).
    pub fn paths(&self) -> Vec<(String, &M)> {
        fn rec<'a>(m: &'a M, p: &str, out: &mut Vec<(String, &'a M)>) {
            if let M::D(d) = m {
                for (n, c) in d {
                    let q = if p.is_empty() { n.clone() } else { format!("{}/{}", p, n) };
                    out.push((q.clone(), c));
                    rec(c, &q, out);
                }
            }
        }
        let mut v = Vec::new();
        rec(self, "", &mut v);
        v
    }
    pub fn files(&self) -> Vec<(String, Arc<Vec<u8>>)> {
        self.paths()
            .into_iter()
            .filter_map(|(p, m)| match m {
                M::F(b) => Some((p, b.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn dirs(&self) -> Vec<String> {
        self.paths().into_iter().filter(|x| x.1.is_dir()).map(|x| x.0).collect()
    }
    /// Puts `n` at the path, making directories on the way (replacing files there).
    pub fn put(&mut self, path: &str, n: M) {
        let mut cur = self;
        let cs: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        if cs.is_empty() {
            *cur = n;
            return;
        }
        for c in &cs[..cs.len() - 1] {
            if !cur.is_dir() {
                *cur = M::empty();
            }
            cur = cur.dir_mut().entry(c.to_string()).or_insert_with(M::empty);
        }
        if !cur.is_dir() {
            *cur = M::empty();
        }
        cur.dir_mut().insert(cs[cs.len() - 1].to_string(), n);
    }
    pub fn remove(&mut self, path: &str) -> Option<M> {
        let cs: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        let mut cur = self;
        for c in &cs[..cs.len() - 1] {
            match cur {
                M::D(m) => cur = m.get_mut(*c)?,
                _ => return None,
            }
        }
        match cur {
            M::D(m) => m.remove(cs[cs.len() - 1]),
            _ => None,
        }
    }
}

pub fn model(n: &Node) -> M {
    match n {
        Node::F(c) => M::F(Arc::new(expand(c))),
        Node::D(m) => M::D(m.iter().map(|(k, v)| (k.clone(), model(v))).collect()),
    }
}

/// Names that are plain path components, without line breaks.
pub fn name() -> BoxedStrategy<String> {
    let pool: Vec<&'static str> = vec![
        "a", "b", "c", "ab", "a.b", "a b", "A", "a-", "a0", "d", "x", "foo", "foo.txt", "src", "é", "日本",
    ];
    prop_oneof![
        12 => prop::sample::select(pool).prop_map(|s| s.to_string()),
        4 => "[a-z]{1,6}",
        1 => prop::sample::select(vec!["...", "..a", ".a", "-x", "--", " ", "a\\b", "*", "[a]", "a?", "~", "#a", "'q'", "\"", "\u{1}", "e\u{301}", "\u{e9}", "nul\t", "con", ".git", ".snapcd2", "snapcd.db"]).prop_map(|s| s.to_string()),
        1 => "[a-zA-Z0-9._ -]{1,12}".prop_filter("dots", |s| s != "." && s != ".."),
        1 => Just("n".repeat(200)),
    ]
    .boxed()
}

pub fn tree_with(content: BoxedStrategy<Content>, name: BoxedStrategy<String>, depth: u32, width: usize) -> BoxedStrategy<Node> {
    let leaf = prop_oneof![
        6 => content.prop_map(Node::F),
        1 => Just(Node::D(BTreeMap::new())),
    ];
    let node = leaf.prop_recursive(depth, 40, width as u32, {
        let name = name.clone();
        move |inner| btree_map(name.clone(), inner, 0..=width).prop_map(Node::D)
    });
    btree_map(name, node, 0..=width + 1).prop_map(Node::D).boxed()
}

pub fn small_tree() -> BoxedStrategy<Node> {
    tree_with(small_bytes(), name(), 3, 4)
}

/// A chain of directories, with a file here and there.
pub fn deep_tree() -> BoxedStrategy<Node> {
    (prop::sample::select(vec!["d", "ab", "é", "a.b"]), 8usize..150, any::<u32>())
        .prop_map(|(n, depth, s)| {
            let mut s = s as u64;
            let mut at = BTreeMap::new();
            at.insert("bottom".to_string(), Node::F(vec![Seg::Text("b".into())]));
            for i in 0..depth {
                let r = splitmix(&mut s);
                let mut d = BTreeMap::new();
                d.insert(n.to_string(), Node::D(at));
                match r % 8 {
                    0 => {
                        d.insert("a".into(), Node::F(vec![Seg::Text(format!("{}", i))]));
                    }
                    1 => {
                        d.insert("z".into(), Node::F(vec![]));
                    }
                    2 => {
                        d.insert("e".into(), Node::D(BTreeMap::new()));
                    }
                    _ => {}
                }
                at = d;
            }
            Node::D(at)
        })
        .boxed()
}

/// One directory with many entries, among them some directories.
pub fn wide_tree(max: usize) -> BoxedStrategy<Node> {
    let bits = (usize::BITS - max.leading_zeros()) as usize;
    ((5..bits), 0usize..1 << 16, 0u8..4, any::<u32>())
        .prop_map(move |(b, r, kind, s)| {
            let n = ((1 << b) + r % (1 << b)).min(max);
            let mut s = s as u64;
            let mut d = BTreeMap::new();
            for i in 0..n {
                let r = splitmix(&mut s);
                let name = match kind {
                    0 => format!("{}", i),
                    1 => format!("file {:06}.txt", i),
                    2 => format!("{:x}", r),
                    _ => format!("{}{}", "x".repeat(i % 120), i / 120),
                };
                let c = match r >> 8 & 7 {
                    0 => vec![],
                    1 => vec![Seg::Text("same\n".into())],
                    2 => vec![Seg::Bytes(vec![r as u8])],
                    _ => vec![Seg::Text(format!("content {}\n", i))],
                };
                let node = match r >> 16 & 15 {
                    0 => Node::D(BTreeMap::new()),
                    1 => Node::D(vec![("in".to_string(), Node::F(c))].into_iter().collect()),
                    _ => Node::F(c),
                };
                d.insert(name, node);
            }
            Node::D(d)
        })
        .boxed()
}

/// Names as long as a file system takes them, alike for most of their length.
pub fn long_names() -> BoxedStrategy<Node> {
    (vec((0usize..3, 200usize..=255, any::<bool>()), 1..8), prop::sample::select(vec!["n", "é", "日"]))
        .prop_map(|(v, ch)| {
            let mut d = BTreeMap::new();
            for (i, (k, len, dir)) in v.into_iter().enumerate() {
                let mut n = ch.repeat(len / ch.len());
                match k {
                    0 => {}
                    1 => n.truncate((n.len() / ch.len() - 1) * ch.len()),
                    _ => n = format!("{}{}", i, ch.repeat((len - 1) / ch.len())),
                }
                let f = Node::F(vec![Seg::Text(format!("{}\n", i))]);
                d.insert(n.clone(), if dir { Node::D(vec![(n, f)].into_iter().collect()) } else { f });
            }
            Node::D(d)
        })
        .boxed()
}

/// Trees of unusual dimensions.
pub fn shape(max: usize) -> BoxedStrategy<Node> {
    prop_oneof![3 => wide_tree(max), 2 => deep_tree(), 2 => long_names()].boxed()
}

/// Writes the model at a path that does not exist yet (or an existing directory, which it extends).
pub fn write_tree(p: &Path, m: &M) -> Result<(), Fail> {
    match m {
        M::F(b) => std::fs::write(p, &**b)?,
        M::D(d) => {
            if !p.is_dir() {
                std::fs::create_dir(p)?;
            }
            for (n, c) in d {
                write_tree(&p.join(n), c)?;
            }
        }
    }
    Ok(())
}

/// Reads what is at a path. Top level names in `skip` are left out.
pub fn read_tree(p: &Path, skip: &[&str]) -> Result<M, Fail> {
    let md = match std::fs::symlink_metadata(p) {
        Ok(m) => m,
        // Nothing there, where there should be: differs from every tree that is expected
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(M::file(b"\x00(nothing there)\x00")),
        Err(e) => return Err(Fail::Infra(format!("reading {}: {}", p.display(), e))),
    };
    if md.is_dir() {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(p)? {
            let e = e?;
            let n = match e.file_name().into_string() {
                Ok(n) => n,
                Err(n) => format!("{:?} (not UTF-8)", n),
            };
            if skip.contains(&n.as_str()) {
                continue;
            }
            m.insert(n, read_tree(&e.path(), &[])?);
        }
        Ok(M::D(m))
    } else if md.is_file() {
        Ok(M::F(Arc::new(std::fs::read(p)?)))
    } else if md.file_type().is_symlink() {
        Ok(M::file(format!("symlink to {:?}", std::fs::read_link(p)?).as_bytes()))
    } else {
        Ok(M::file(b"special file"))
    }
}

/// Writes the tree with some parts of it elsewhere, behind symbolic links (absolute and relative ones).
pub fn write_linked(p: &Path, m: &M, aside: &Path, seed: &mut u64) -> Result<(), Fail> {
    std::fs::create_dir_all(aside)?;
    let r = splitmix(seed);
    let at = if r % 3 == 0 { aside.join(format!("{:x}", r)) } else { p.to_path_buf() };
    match m {
        M::F(b) => std::fs::write(&at, &**b)?,
        M::D(d) => {
            std::fs::create_dir(&at)?;
            for (n, c) in d {
                write_linked(&at.join(n), c, aside, seed)?;
            }
        }
    }
    if at != p {
        if r % 2 == 0 {
            // From the real directory of the link: all lie below the parent of `aside`
            let dir = std::fs::canonicalize(p.parent().unwrap())?;
            let top = std::fs::canonicalize(aside.parent().unwrap())?;
            let up = dir.strip_prefix(&top).map_err(|e| Fail::Infra(e.to_string()))?.components().count();
            let mut t = PathBuf::new();
            for _ in 0..up {
                t.push("..");
            }
            t.push(aside.file_name().unwrap());
            t.push(at.file_name().unwrap());
            std::os::unix::fs::symlink(t, p)?;
        } else {
            std::os::unix::fs::symlink(&at, p)?;
        }
    }
    Ok(())
}

/// The same as `read_tree`, with what symbolic links lead to.
pub fn read_followed(p: &Path, skip: &[&str]) -> Result<M, Fail> {
    let md = match std::fs::metadata(p) {
        Ok(m) => m,
        // A link that leads nowhere
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return read_tree(p, &[]),
        Err(e) => return Err(Fail::Infra(format!("reading {}: {}", p.display(), e))),
    };
    if !md.is_dir() {
        return read_tree(&std::fs::canonicalize(p)?, &[]);
    }
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(p)? {
        let e = e?;
        let n = match e.file_name().into_string() {
            Ok(n) => n,
            Err(n) => format!("{:?} (not UTF-8)", n),
        };
        if !skip.contains(&n.as_str()) {
            m.insert(n, read_followed(&e.path(), &[])?);
        }
    }
    Ok(M::D(m))
}

/// Makes the directory equal to the model, touching only what differs. `skip`: top level names left alone.
pub fn sync_tree(p: &Path, new: &M, skip: &[&str]) -> Result<(), Fail> {
    let old = read_tree(p, skip)?;
    sync_rec(p, &old, new)
}

fn sync_rec(p: &Path, old: &M, new: &M) -> Result<(), Fail> {
    match (old, new) {
        (M::F(a), M::F(b)) => {
            if a != b {
                std::fs::write(p, &**b)?;
            }
        }
        (M::D(a), M::D(b)) => {
            for (n, c) in a {
                if !b.contains_key(n) {
                    remove_any(&p.join(n), c)?;
                }
            }
            for (n, c) in b {
                match a.get(n) {
                    Some(o) => sync_rec(&p.join(n), o, c)?,
                    None => write_tree(&p.join(n), c)?,
                }
            }
        }
        _ => {
            remove_any(p, old)?;
            write_tree(p, new)?;
        }
    }
    Ok(())
}

fn remove_any(p: &Path, m: &M) -> Result<(), Fail> {
    if m.is_dir() {
        std::fs::remove_dir_all(p)?;
    } else {
        std::fs::remove_file(p)?;
    }
    Ok(())
}

/// Edits of a tree. Paths are chosen by number among those that exist, so that edits stay meaningful
/// when a case shrinks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// New content for an existing file
    Write(u16, Content),
    /// Add a node under an existing directory
    Add(u16, String, Node),
    Remove(u16),
    /// Replace whatever is at a path
    Replace(u16, Node),
    /// Move something into an existing directory under a new name
    Move(u16, u16, String),
    /// Copy something
    Copy(u16, u16, String),
}

pub fn edit(content: BoxedStrategy<Content>) -> BoxedStrategy<Edit> {
    let small = tree_with(content.clone(), name(), 2, 3);
    let node = prop_oneof![2 => content.clone().prop_map(Node::F), 1 => small];
    prop_oneof![
        4 => (any::<u16>(), content).prop_map(|(a, c)| Edit::Write(a, c)),
        4 => (any::<u16>(), name(), node.clone()).prop_map(|(a, n, c)| Edit::Add(a, n, c)),
        3 => any::<u16>().prop_map(Edit::Remove),
        2 => (any::<u16>(), node).prop_map(|(a, c)| Edit::Replace(a, c)),
        1 => (any::<u16>(), any::<u16>(), name()).prop_map(|(a, b, n)| Edit::Move(a, b, n)),
        1 => (any::<u16>(), any::<u16>(), name()).prop_map(|(a, b, n)| Edit::Copy(a, b, n)),
    ]
    .boxed()
}

fn nth<T: Clone>(v: &[T], n: u16) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[n as usize * v.len() / 65536].clone())
    }
}

fn dirs_and_root(m: &M) -> Vec<String> {
    let mut d = vec![String::new()];
    d.extend(m.dirs());
    d
}

pub fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{}/{}", a, b)
    }
}

pub fn apply_edit(m: &mut M, e: &Edit) {
    match e {
        Edit::Write(s, c) => {
            let f: Vec<String> = m.files().into_iter().map(|x| x.0).collect();
            if let Some(p) = nth(&f, *s) {
                m.put(&p, M::F(Arc::new(expand(c))));
            }
        }
        Edit::Add(s, n, node) => {
            if let Some(d) = nth(&dirs_and_root(m), *s) {
                m.put(&join(&d, n), model(node));
            }
        }
        Edit::Remove(s) => {
            let p: Vec<String> = m.paths().into_iter().map(|x| x.0).collect();
            if let Some(p) = nth(&p, *s) {
                m.remove(&p);
            }
        }
        Edit::Replace(s, node) => {
            let p: Vec<String> = m.paths().into_iter().map(|x| x.0).collect();
            if let Some(p) = nth(&p, *s) {
                m.put(&p, model(node));
            }
        }
        Edit::Move(a, b, n) | Edit::Copy(a, b, n) => {
            let p: Vec<String> = m.paths().into_iter().map(|x| x.0).collect();
            if let Some(p) = nth(&p, *a) {
                let x = m.get(&p).unwrap().clone();
                if matches!(e, Edit::Move(..)) {
                    m.remove(&p);
                }
                if let Some(d) = nth(&dirs_and_root(m), *b) {
                    m.put(&join(&d, n), x);
                }
            }
        }
    }
}

pub fn pick<T: Clone>(v: &[T], n: u16) -> Option<T> {
    nth(v, n)
}

pub fn p(base: &Path, rel: &str) -> PathBuf {
    if rel.is_empty() {
        base.to_path_buf()
    } else {
        base.join(rel)
    }
}
