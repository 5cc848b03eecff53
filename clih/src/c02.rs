//! C02: a stored tree is restored identically; what cannot be represented is refused.
use crate::{cli::*, db, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStringExt;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    trees: Vec<(Node, Route)>,
    /// 0: new path, 1: new path below missing directories, 2: existing empty directory, 3: relative path
    dest: u8,
    /// Parts of the trees lie behind symbolic links
    #[serde(default)]
    links: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Route {
    InsertAbs,
    InsertRel,
    InsertDot,
    Commit,
    CommitPath,
}

fn route() -> BoxedStrategy<Route> {
    prop::sample::select(vec![Route::InsertAbs, Route::InsertRel, Route::InsertDot, Route::Commit, Route::CommitPath]).boxed()
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![20 => small_bytes(), 1 => medium_content()].boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    let node = prop_oneof![5 => tree_with(content(), name(), 4, 4), 1 => prop_oneof![3 => content(), 1 => large_content()].prop_map(Node::F)];
    (vec((node, route()), 1..4), 0u8..4, prop::option::weighted(0.2, any::<u32>()))
        .prop_map(|(trees, dest, links)| Case { trees, dest, links })
        .boxed()
}

fn shapes(_: Tier) -> BoxedStrategy<Case> {
    (vec((shape(3000), route()), 1..3), 0u8..4).prop_map(|(trees, dest)| Case { trees, dest, links: None }).boxed()
}

/// The tree key of the newest commit of master.
fn head_tree(r: &Repo) -> Result<String, Fail> {
    let d = db::load(&r.db())?;
    let k = d.log("master", None);
    let k = k.first().ok_or(Fail::Violation("commit made no ref entry".into()))?;
    let k = crate::fmt::parse_key(k).ok_or(Fail::Violation(format!("ref entry {}", k)))?;
    let o = d
        .objects
        .get(&crate::fmt::dbkey(&k))
        .ok_or(Fail::Violation("commit is not stored".into()))?;
    let o = crate::fmt::decode_object(o).map_err(Fail::Violation)?;
    o.keys.first().map(crate::fmt::user_key).ok_or(Fail::Violation("commit without tree".into()))
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let mut stored = vec![];
    for (i, (n, route)) in c.trees.iter().enumerate() {
        let m = model(n);
        let src = match c.links {
            Some(_) => base.join(format!("links{}/src", i)),
            None => base.join(format!("src{}", i)),
        };
        let write_tree = |p: &Path, m: &M| match c.links {
            Some(s) => {
                std::fs::create_dir(p.parent().unwrap())?;
                write_linked(p, m, &p.parent().unwrap().join("aside"), &mut (s as u64))
            }
            None => write_tree(p, m),
        };
        let key = match route {
            Route::InsertAbs => {
                write_tree(&src, &m)?;
                r.insert(&src)?
            }
            Route::InsertRel => {
                write_tree(&src, &m)?;
                r.insert(&Path::new("..").join(src.strip_prefix(&base).unwrap()))?
            }
            Route::InsertDot if m.is_dir() => {
                write_tree(&src, &m)?;
                let mut r2 = r.clone();
                r2.global = vec!["-d".into(), r.root.join(".snapcd").to_str().unwrap().into()];
                let o = r2.run_in(&src, &["insert", "."])?;
                if !o.ok() {
                    viol!("insert . fails: {}", o.brief());
                }
                key_of_insert(&o)?
            }
            Route::Commit if m.is_dir() => {
                sync_tree(&r.root, &m, &[".snapcd"])?;
                r.must(&["commit", "-m", "x"])?;
                head_tree(&r)?
            }
            _ => {
                write_tree(&src, &m)?;
                r.must(&["commit", "-m", "x", "-p", src.to_str().unwrap()])?;
                head_tree(&r)?
            }
        };
        if src.exists() {
            let after = read_followed(&src, &[])?;
            if after != m {
                viol!("storing changed the source: {:?} became {:?}", m, after);
            }
        } else if read_tree(&r.root, &[".snapcd"])? != m {
            viol!("commit changed the working directory");
        }
        stored.push((m, key));
    }
    for (i, (m, key)) in stored.iter().enumerate() {
        let dest = match c.dest {
            1 => base.join(format!("out{}/x/y", i)),
            3 => std::path::PathBuf::from(format!("../out{}", i)),
            _ => base.join(format!("out{}", i)),
        };
        if c.dest == 2 && m.is_dir() {
            std::fs::create_dir(&dest)?;
        }
        let o = r.run(&["fetch".as_ref(), key.as_ref(), dest.as_os_str()])?;
        if !o.ok() {
            viol!("fetching a stored tree {:?} fails: {}", m, o.brief());
        }
        let full = r.root.join(&dest);
        if std::fs::symlink_metadata(&full).is_err() {
            viol!("fetch of {:?} succeeds but creates nothing", m);
        }
        let got = read_tree(&full, &[])?;
        if got != *m {
            viol!("stored {:?}\nfetched {:?}", m, got);
        }
        let np = m.paths().len();
        out.label(np > 0, "dir");
        out.label(m.paths().iter().any(|x| matches!(x.1, M::D(d) if d.is_empty())), "empty-dir");
        out.label(m.files().iter().any(|f| f.1.is_empty()), "empty-file");
        out.label(m.paths().iter().any(|x| x.0.matches('/').count() >= 2), "deep");
        out.label(!m.is_dir(), "file");
        out.label(c.links.is_some(), "links");
        out.nontrivial |= np >= 2 || (!m.is_dir() && *m != M::file(b""));
    }
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    tree: Node,
    dir: u16,
    name: Vec<u8>,
    kind: u8,
    commit: bool,
}

fn bad_cases(_: Tier) -> BoxedStrategy<BadCase> {
    let nm = (vec(1u8..=255, 0..6), 128u8..=255, vec(1u8..=255, 0..6)).prop_map(|(a, b, c)| {
        let mut v = a;
        v.push(b);
        v.extend(c);
        v.retain(|x| *x != b'/' && *x != 0);
        v
    });
    (small_tree(), any::<u16>(), nm, 0u8..5, any::<bool>())
        .prop_map(|(tree, dir, name, kind, commit)| BadCase { tree, dir, name, kind, commit })
        .boxed()
}

/// One entry that cannot be represented, somewhere in a tree.
fn run_bad(env: &Env, c: &BadCase) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let m = model(&c.tree);
    let src = if c.commit { r.root.clone() } else { base.join("src") };
    write_tree(&src, &m)?;
    r.must(&["insert", src.join(".").to_str().unwrap(), "-e", "**"])?;
    let before = db::load(&r.db())?;
    let mut dirs = vec![String::new()];
    dirs.extend(m.dirs());
    let d = pick(&dirs, c.dir).unwrap();
    let name = std::ffi::OsString::from_vec(c.name.clone());
    let mut out = Out::default();
    if c.kind < 3 && name.to_str().is_some() {
        // By chance a valid name.
        return Ok(out);
    }
    let at = p(&src, &d);
    match c.kind {
        0 => std::fs::write(at.join(&name), b"x")?,
        1 => std::fs::create_dir(at.join(&name))?,
        2 => {
            std::fs::create_dir(at.join(&name))?;
            std::fs::write(at.join(&name).join("f"), b"")?;
        }
        3 => {
            let f = std::ffi::CString::new(at.join("zz-fifo").into_os_string().into_vec()).unwrap();
            if unsafe { libc::mkfifo(f.as_ptr(), 0o600) } != 0 {
                return Err(Fail::Infra("mkfifo".into()));
            }
        }
        _ => std::os::unix::fs::symlink("nowhere/at/all", at.join("zz-dangling"))?,
    }
    let o = if c.commit {
        r.run(&["commit", "-m", "x"])?
    } else {
        r.run(&["insert".as_ref(), src.as_os_str()])?
    };
    if o.ok() {
        viol!("a tree with an entry of kind {} named {:?} is stored without an error: {}", c.kind, name, o.brief());
    }
    let after = db::load(&r.db())?;
    if !before.same(&after) {
        viol!("a refused tree left something behind: {}", before.diff(&after));
    }
    out.nontrivial = true;
    out.label(true, ["name-file", "name-dir", "name-dir-full", "fifo", "dangling"][c.kind as usize]);
    out.label(c.commit, "commit");
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "restore: 1-3 generated trees (or files) per repository, stored by insert (absolute, relative, '.') or \
               commit (working tree, -p) and fetched into new places; the result is read from disk and compared with \
               the model. Non-trivial: a tree of at least two entries, or a non-empty file. unrepresentable: a tree with one \
               entry that has a non-Unicode name, is a FIFO or a dangling link must be refused leaving the store as it was.",
        assumptions: vec!["links to files or directories count as what they lead to"],
        parts: vec![
            Box::new(part("restore", 2500, 40000, cases, run)),
            Box::new(part("shapes", 200, 2500, shapes, run).shrink(60)),
            Box::new(part("unrepresentable", 500, 8000, bad_cases, run_bad)),
        ],
    }
}
