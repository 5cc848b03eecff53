//! C03: a key depends only on content, and identifies it.
use crate::{cli::*, db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    other: Node,
    /// Seeds of creation orders
    order: Vec<u32>,
    mode: u16,
    mtime: u32,
    edits: Vec<Mut>,
}

/// Small changes of a tree, which have to change its key.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Edit(Edit),
    FlipByte(u16, u32),
    Append(u16, u8),
    Truncate(u16),
    /// Move a byte from the end of one file to the start of the next
    Shift(u16),
    SwapFiles(u16, u16),
    FileToEmptyDir(u16),
}

fn muts() -> BoxedStrategy<Mut> {
    prop_oneof![
        4 => edit(small_bytes()).prop_map(Mut::Edit),
        3 => (any::<u16>(), any::<u32>()).prop_map(|(a, b)| Mut::FlipByte(a, b)),
        1 => (any::<u16>(), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(a, b)| Mut::Append(a, b)),
        1 => any::<u16>().prop_map(Mut::Truncate),
        1 => any::<u16>().prop_map(Mut::Shift),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::SwapFiles(a, b)),
        1 => any::<u16>().prop_map(Mut::FileToEmptyDir),
    ]
    .boxed()
}

fn apply(m: &mut M, e: &Mut) {
    let files: Vec<_> = m.files();
    let with = |m: &mut M, s: u16, f: &dyn Fn(&mut Vec<u8>)| {
        if let Some((p, b)) = pick(&files, s) {
            let mut b = b.to_vec();
            f(&mut b);
            m.put(&p, M::file(&b));
        }
    };
    match e {
        Mut::Edit(e) => apply_edit(m, e),
        Mut::FlipByte(s, at) => with(m, *s, &|b| {
            if !b.is_empty() {
                let i = *at as usize % b.len();
                b[i] ^= 1 << (at >> 29);
            }
        }),
        Mut::Append(s, x) => with(m, *s, &|b| b.push(*x)),
        Mut::Truncate(s) => with(m, *s, &|b| {
            b.pop();
        }),
        Mut::Shift(s) => {
            if let Some(i) = pick(&(0..files.len()).collect::<Vec<_>>(), *s) {
                if i + 1 < files.len() && !files[i].1.is_empty() {
                    let mut a = files[i].1.to_vec();
                    let x = a.pop().unwrap();
                    let mut b = files[i + 1].1.to_vec();
                    b.insert(0, x);
                    m.put(&files[i].0, M::file(&a));
                    m.put(&files[i + 1].0, M::file(&b));
                }
            }
        }
        Mut::SwapFiles(a, b) => {
            if let (Some(a), Some(b)) = (pick(&files, *a), pick(&files, *b)) {
                m.put(&a.0, M::F(b.1));
                m.put(&b.0, M::F(a.1));
            }
        }
        Mut::FileToEmptyDir(s) => {
            if let Some((p, _)) = pick(&files, *s) {
                m.put(&p, M::empty());
            }
        }
    }
}

/// Creates the same tree with entries made in an order of its own.
fn write_ordered(p: &Path, m: &M, seed: &mut u64) -> Result<(), Fail> {
    match m {
        M::F(b) => std::fs::write(p, &**b)?,
        M::D(d) => {
            std::fs::create_dir(p)?;
            let mut v: Vec<_> = d.iter().collect();
            for i in (1..v.len()).rev() {
                v.swap(i, splitmix(seed) as usize % (i + 1));
            }
            for (n, c) in v {
                write_ordered(&p.join(n), c, seed)?;
            }
        }
    }
    Ok(())
}

fn touch(p: &Path, t: i64) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    let ts = libc::timespec { tv_sec: t, tv_nsec: 5 };
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), 0);
    }
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![16 => small_bytes(), 1 => medium_content()].boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    let node = || prop_oneof![6 => tree_with(content(), name(), 3, 4), 1 => content().prop_map(Node::F), 1 => large_content().prop_map(Node::F)];
    (node(), node(), vec(any::<u32>(), 2..4), prop::sample::select(vec![0o644u16, 0o600, 0o755, 0o444]), 0u32..2_000_000_000, vec(muts(), 1..5))
        .prop_map(|(tree, other, order, mode, mtime, edits)| Case { tree, other, order, mode, mtime, edits })
        .boxed()
}

fn commit_tree_key(r: &Repo, refname: &str) -> Result<String, Fail> {
    let d = db::load(&r.db())?;
    let k = d.log(refname, None).first().cloned().ok_or(Fail::Violation("no ref entry after commit".into()))?;
    let k = fmt::parse_key(&k).ok_or(Fail::Violation("malformed key in ref".into()))?;
    let o = d.objects.get(&fmt::dbkey(&k)).ok_or(Fail::Violation("commit not stored".into()))?;
    let o = fmt::decode_object(o).map_err(Fail::Violation)?;
    o.keys.first().map(fmt::user_key).ok_or(Fail::Violation("commit without a tree".into()))
}

fn run(env: &Env, c: &Case) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let m = model(&c.tree);
    let mut by_key: BTreeMap<String, M> = BTreeMap::new();
    let mut seen = |m: &M, k: &str, how: &str| -> Result<(), Fail> {
        if let Some(o) = by_key.get(k) {
            if o != m {
                viol!("different contents get the same key {}: {:?} and {:?}", k, o, m);
            }
        } else if let Some((k2, _)) = by_key.iter().find(|x| x.1 == m) {
            viol!("the same content {:?} gets key {} and, {}, key {}", m, k2, how, k);
        }
        by_key.insert(k.to_string(), m.clone());
        Ok(())
    };
    let mut out = Out::default();
    // The same content over different routes
    for (i, o) in c.order.iter().enumerate() {
        let src = base.join(format!("some{}/where{}", "x".repeat(i), i));
        std::fs::create_dir_all(src.parent().unwrap())?;
        let mut s = *o as u64;
        write_ordered(&src, &m, &mut s)?;
        if i == 1 {
            for (q, x) in m.paths() {
                if !x.is_dir() {
                    std::fs::set_permissions(p(&src, &q), std::fs::Permissions::from_mode(c.mode as u32))?;
                }
            }
            for (q, _) in m.paths() {
                touch(&p(&src, &q), c.mtime as i64);
            }
        }
        let k = r.insert(&src)?;
        seen(&m, &k, "inserted from another place with other creation order and times")?;
        if i == 0 {
            let k = r.insert(&src)?;
            seen(&m, &k, "inserted again")?;
            // The same bytes in small portions, with interruptions
            let mut max = 1 + (*o >> 8) % if o % 2 == 0 { 60 } else { 40_000 };
            if m.files().iter().any(|f| f.1.len() > 400_000) {
                max += 4096;
            }
            let mut k = r.cmd(&r.root, &["insert".as_ref(), src.as_os_str()]);
            k.env("LD_PRELOAD", &env.ctx.shim).env("VC_DIR", &src).env("VC_SHORT", format!("{},{}", o, max));
            let ran = output(k)?;
            if !ran.ok() {
                viol!("inserting {:?} fails when reads give at most {} bytes: {}", m, max, ran.brief());
            }
            seen(&m, &key_of_insert(&ran)?, "read in small portions")?;
            // With parts of it behind links
            let top = base.join("linked");
            let mut s = *o as u64;
            std::fs::create_dir(&top)?;
            write_linked(&top.join("it"), &m, &top.join("aside"), &mut s)?;
            let k = r.insert(&top.join("it"))?;
            seen(&m, &k, "inserted with parts behind links")?;
        }
    }
    // Into a store that already holds something else
    let r2 = Repo::init(env, &base.join("r2"))?;
    let other = model(&c.other);
    let osrc = base.join("other");
    write_tree(&osrc, &other)?;
    let k = r2.insert(&osrc)?;
    seen(&other, &k, "inserted into another repository")?;
    r2.must(&["commit", "-m", "msg", "-p", base.join("some/where0").to_str().unwrap()])?;
    let k = commit_tree_key(&r2, "master")?;
    seen(&m, &k, "committed into another repository with -p")?;
    if m.is_dir() {
        sync_tree(&r2.root, &m, &[".snapcd"])?;
        r2.must(&["commit", "-m", "other message", "br"])?;
        let k = commit_tree_key(&r2, "br")?;
        seen(&m, &k, "committed as the working tree")?;
        // Hashed file by file when comparing
        let o = r2.must(&["compare", &k])?;
        if !o.out.is_empty() {
            viol!("compare against the key of the same content lists {:?}", o.text());
        }
    }
    // Changed content
    let mut cur = m.clone();
    let root = base.join("mutated");
    write_tree(&root, &cur)?;
    for e in &c.edits {
        let mut next = cur.clone();
        apply(&mut next, e);
        if next != cur {
            out.nontrivial = true;
        }
        sync_tree(&root, &next, &[])?;
        let k = r.insert(&root)?;
        seen(&next, &k, "reached by edits")?;
        cur = next;
    }
    // Single files are identified too
    for (q, b) in cur.files().into_iter().take(3) {
        let k = r.insert(&p(&root, &q))?;
        seen(&M::F(b), &k, "inserted as a file")?;
    }
    out.label(m.paths().len() > 3, "several-entries");
    out.label(!m.is_dir(), "file");
    out.label(m.files().iter().any(|f| f.1.len() > 32768), "chunked");
    Ok(out)
}

// ---- Directories of unusual dimensions ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    tree: Node,
    order: Vec<u32>,
}

fn shapes(_: Tier) -> BoxedStrategy<Shape> {
    (shape(4000), vec(any::<u32>(), 2..4)).prop_map(|(tree, order)| Shape { tree, order }).boxed()
}

fn in_shape(env: &Env, c: &Shape) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let m = model(&c.tree);
    let mut keys = vec![];
    let mut out = Out::default();
    let mut work = r.root.clone();
    for (i, o) in c.order.iter().enumerate() {
        let src = base.join(format!("src{}", i));
        let mut s = *o as u64;
        write_ordered(&src, &m, &mut s)?;
        keys.push((r.insert(&src)?, "made in some order".to_string()));
        let mut k = r.cmd(&r.root, &["insert".as_ref(), src.as_os_str()]);
        k.env("LD_PRELOAD", &env.ctx.shim).env("VC_ORDER", o.to_string());
        let ran = output(k)?;
        if !ran.ok() {
            viol!("inserting it, listed in another order, fails: {}", ran.brief());
        }
        keys.push((key_of_insert(&ran)?, format!("listed in order {}", o)));
        work = src;
    }
    let mut k = r.cmd(&r.root, &["commit".as_ref(), "--message=m".as_ref(), "-p".as_ref(), work.as_os_str()]);
    k.env("LD_PRELOAD", &env.ctx.shim).env("VC_ORDER", (c.order[0] ^ 1).to_string());
    let ran = output(k)?;
    if !ran.ok() {
        viol!("committing it, listed in another order, fails: {}", ran.brief());
    }
    keys.push((commit_tree_key(&r, "master")?, "committed, listed in another order".into()));
    if let Some(x) = keys.iter().find(|x| x.0 != keys[0].0) {
        viol!("one tree gets key {} and, {}, key {}", keys[0].0, x.1, x.0);
    }
    let n = m.paths().len();
    out.nontrivial = n > 5;
    out.label(n > 1000, "over 1000 paths");
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "One content is stored over many routes (creation orders, places, permissions, times, links followed, short and interrupted reads, insert, insert again, \
               commit, commit -p, empty and filled stores) and then changed step by step (byte flips, appends, moves of bytes \
               between files, swaps, renames, structure edits). All keys seen in a case are compared with all contents: \
               equal keys exactly for equal contents. shapes: directories of up to 4000 entries, deep ones and longest names, created in several \
               orders and listed by the file system in random orders, keep one key. Non-trivial: some step changed the content.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("keys", 1200, 20000, cases, run)),
            Box::new(part("shapes", 80, 1000, shapes, in_shape).shrink(60)),
        ],
    }
}
