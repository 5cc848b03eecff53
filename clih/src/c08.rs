//! C08: fetch never overwrites anything and stays inside its destination.
use crate::{cli::*, db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    /// Edits that make what is already at the destination out of the tree, or nothing there
    present: Option<Vec<Edit>>,
    /// What is removed of it: mostly everything that would be in the way
    thin: Vec<u16>,
    links: Vec<(u16, u8)>,
    outside: Node,
    dest: u8,
    hostile: Vec<(u16, u8)>,
    readonly: bool,
    /// Files beside those that are fetched, of names a program might take for temporary files
    #[serde(default)]
    beside: Vec<(u16, u8)>,
    /// Permissions of what is at the destination already
    #[serde(default)]
    modes: Vec<(u16, u8)>,
}

/// Names that are made of another one.
pub fn derived(n: &str, k: u8) -> String {
    let ends = ["tmp", "part", "new", "bak", "temp", "swp", "orig", "lock", "partial", "old", "download", "snapcd", "snapcd-tmp", "out", "0", "1"];
    let e = ends[k as usize / 8 % ends.len()];
    let (stem, ext) = match n.rsplit_once('.') {
        Some((a, b)) if !a.is_empty() => (a, b),
        _ => (n, ""),
    };
    match k % 8 {
        0 => format!("{}.{}", n, e),
        1 => format!("{}.{}", stem, e),
        2 => format!(".{}.{}", n, e),
        3 => format!("{}~", n),
        4 => format!(".{}", n),
        5 => format!(".{}", e),
        6 => format!("{}.{}.{}", stem, e, ext),
        _ => format!("{}{}", e, n),
    }
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![8 => small_bytes(), 1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)])].boxed()
}

fn cases(hostile: bool) -> BoxedStrategy<Case> {
    let t = || tree_with(content(), name(), 2, 3);
    let node = prop_oneof![5 => t(), 1 => content().prop_map(Node::F)];
    let h = if hostile { vec((any::<u16>(), any::<u8>()), 1..3).boxed() } else { Just(vec![]).boxed() };
    (
        node,
        prop::option::weighted(0.7, vec(edit(content()), 0..5)),
        vec(any::<u16>(), 0..12),
        prop_oneof![3 => Just(vec![]), 1 => vec((any::<u16>(), any::<u8>()), 1..3)],
        t(),
        0u8..6,
        h,
        (prop::bool::weighted(0.2), prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), any::<u8>()), 1..10)], vec((any::<u16>(), any::<u8>()), 0..4)),
    )
        .prop_map(|(tree, present, thin, links, outside, dest, hostile, (readonly, beside, modes))| Case { tree, present, thin, links, outside, dest, hostile, readonly, beside, modes })
        .boxed()
}

/// Everything below a directory: kind, content and permissions.
pub fn snapshot(p: &Path) -> Result<BTreeMap<PathBuf, (String, Vec<u8>, u32)>, Fail> {
    use std::os::unix::fs::PermissionsExt;
    fn rec(base: &Path, p: &Path, m: &mut BTreeMap<PathBuf, (String, Vec<u8>, u32)>) -> Result<(), Fail> {
        for e in std::fs::read_dir(p)? {
            let q = e?.path();
            let md = std::fs::symlink_metadata(&q)?;
            let rel = q.strip_prefix(base).unwrap().to_path_buf();
            if md.is_dir() {
                m.insert(rel, ("dir".into(), vec![], md.permissions().mode()));
                rec(base, &q, m)?;
            } else if md.file_type().is_symlink() {
                use std::os::unix::ffi::OsStrExt;
                m.insert(rel, ("link".into(), std::fs::read_link(&q)?.as_os_str().as_bytes().to_vec(), 0));
            } else {
                m.insert(rel, ("file".into(), std::fs::read(&q)?, md.permissions().mode()));
            }
        }
        Ok(())
    }
    let mut m = BTreeMap::new();
    rec(p, p, &mut m)?;
    Ok(m)
}

pub fn put_hostile(objs: &mut fmt::Objs, m: &M, at: &mut usize, hostile: &[(u16, u8)], names: &[String]) -> fmt::K {
    match m {
        M::F(_) => fmt::put_tree(objs, m),
        M::D(d) => {
            let me = *at;
            *at += 1;
            let mut ns: Vec<String> = vec![];
            let mut ks = vec![];
            for (n, c) in d {
                ks.push(put_hostile(objs, c, at, hostile, names));
                ns.push(n.clone());
            }
            for (i, (w, n)) in hostile.iter().enumerate() {
                if *w as usize % 4 == me % 4 || (me == 0 && i == 0) {
                    let payload = if n % 3 == 0 {
                        let mut x = BTreeMap::new();
                        x.insert("inner".to_string(), M::file(b"hostile"));
                        M::D(x)
                    } else {
                        M::file(b"hostile")
                    };
                    let at = *n as usize % (ks.len() + 1);
                    ks.insert(at, fmt::put_tree(objs, &payload));
                    ns.insert(at, names[*n as usize % names.len()].clone());
                }
            }
            fmt::put(objs, fmt::encode_object(&fmt::encode_fsitem(ks.len() as u64, true, &ns), &ks, "FSItemDir"))
        }
    }
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let tree = model(&c.tree);
    // The place fetched to lies in a directory of its own, deep enough that one step up is still in the scratch.
    let area = base.join("area");
    let cwd = area.join("x/y");
    std::fs::create_dir_all(&cwd)?;
    write_tree(&area.join("outside"), &model(&c.outside))?;
    std::fs::write(cwd.join("neighbour"), "neighbour")?;
    let db = base.join("repo");
    std::fs::rename(r.root.join(".snapcd"), &db)?;
    let (arg, dest): (String, PathBuf) = match c.dest {
        0 => (cwd.join("dest").to_str().unwrap().into(), cwd.join("dest")),
        1 => ("dest".into(), cwd.join("dest")),
        2 => ("./dest".into(), cwd.join("dest")),
        3 => ("../dest/".into(), area.join("x/dest")),
        4 => ("new/deep/dest".into(), cwd.join("new/deep/dest")),
        _ => ("..//dest".into(), area.join("x/dest")),
    };
    let mut present = None;
    if let Some(es) = &c.present {
        let mut p = tree.clone();
        if !p.is_dir() {
            p = M::D(BTreeMap::from([("f".to_string(), p)]));
        }
        for e in es {
            apply_edit(&mut p, e);
        }
        // Take away most of what would be in the way.
        for (i, t) in c.thin.iter().enumerate() {
            let fs: Vec<String> = if i % 2 == 0 { p.files().into_iter().map(|x| x.0).collect() } else { p.paths().into_iter().map(|x| x.0).collect() };
            if let Some(q) = pick(&fs, *t) {
                p.remove(&q);
            }
        }
        if !tree.is_dir() && c.thin.len() % 3 == 0 {
            p = M::file(b"already here");
        }
        std::fs::create_dir_all(dest.parent().unwrap())?;
        write_tree(&dest, &p)?;
        present = Some(p);
    }
    // Things beside what is fetched
    if let Some(p) = present.as_mut().filter(|p| p.is_dir() && tree.is_dir()) {
        let ps: Vec<String> = tree.paths().into_iter().map(|x| x.0).collect();
        for (n, k) in &c.beside {
            if let Some(f) = pick(&ps, *n) {
                let (d, n) = f.rsplit_once('/').map(|(d, n)| (d.to_string(), n)).unwrap_or((String::new(), &f));
                let q = join(&d, &derived(n, *k));
                let at = self::p(&dest, &q);
                if at.parent().unwrap().is_dir() && std::fs::symlink_metadata(&at).is_err() && tree.get(&q).is_none() && at.file_name().unwrap().len() < 256 {
                    std::fs::write(&at, "beside")?;
                    p.put(&q, M::file(b"beside"));
                    out.label(true, "derived names beside");
                }
            }
        }
    } else if present.is_none() && dest.parent().unwrap().is_dir() {
        for (_, k) in &c.beside {
            std::fs::write(dest.with_file_name(derived("dest", *k)), "beside")?;
        }
    }
    // Links where files would go. They are in the way whatever they point to.
    let mut linked = vec![];
    if let Some(p) = &present {
        if p.is_dir() && tree.is_dir() {
            let fs: Vec<String> = tree.files().into_iter().map(|x| x.0).filter(|f| p.get(f).is_none()).collect();
            for (n, k) in &c.links {
                if let Some(f) = pick(&fs, *n) {
                    let q = dest.join(&f);
                    if q.parent().unwrap().is_dir() && std::fs::symlink_metadata(&q).is_err() {
                        let to: PathBuf = match k % 3 {
                            0 => area.join("outside-new"),
                            1 => cwd.join("neighbour"),
                            _ => area.join("outside"),
                        };
                        std::os::unix::fs::symlink(to, &q)?;
                        linked.push(f);
                    }
                }
            }
        }
    }
    let mut objs = fmt::Objs::new();
    let abs = |s: &str| area.join(s).to_str().unwrap().to_string();
    let names: Vec<String> = vec![
        "..".into(), "../escaped".into(), "../../escaped".into(), abs("escaped"), abs("outside"), "sub/../../escaped".into(),
        ".".into(), "".into(), "/".into(), "../neighbour".into(), abs("x/y/neighbour"), "./../escaped".into(), "a/../../neighbour".into(),
        "..//escaped".into(), "a/b".into(), "x/".into(), "../dest2".into(), "....//escaped".into(), "\u{0}".into(), "a/./b".into(),
    ];
    let mut at = 0;
    let k = put_hostile(&mut objs, &tree, &mut at, &c.hostile, &names);
    let conn = db::open(&db.join("snapcd.db"))?;
    conn.execute_batch("BEGIN")?;
    for (k, v) in &objs {
        conn.execute("INSERT OR IGNORE INTO data VALUES (?, ?)", rusqlite::params![fmt::dbkey(k), &v[..]])?;
    }
    conn.execute_batch("COMMIT")?;
    drop(conn);
    if c.readonly {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(cwd.join("neighbour"), std::fs::Permissions::from_mode(0o444))?;
    }
    if let Some(p) = &present {
        use std::os::unix::fs::PermissionsExt;
        let mut ps: Vec<(String, bool)> = p.paths().into_iter().map(|x| (x.0, x.1.is_dir())).collect();
        ps.push((String::new(), p.is_dir()));
        for (n, k) in &c.modes {
            let (q, dir) = pick(&ps, *n).unwrap();
            let mode = if dir { [0o700, 0o750, 0o1777, 0o2775, 0o711][*k as usize % 5] } else { [0o400, 0o600, 0o644, 0o755, 0o666][*k as usize % 5] };
            let at = if q.is_empty() { dest.clone() } else { self::p(&dest, &q) };
            std::fs::set_permissions(at, std::fs::Permissions::from_mode(mode))?;
        }
    }
    let before = snapshot(&area)?;
    let o = r.run_in(&cwd, &["-d".as_ref(), db.as_os_str(), "fetch".as_ref(), fmt::user_key(&k).as_ref(), arg.as_ref()])?;
    let after = snapshot(&area)?;
    let what = format!("fetch of {:?} to {} holding {:?}{}", tree, arg, present, if c.hostile.is_empty() { "" } else { " (hostile names)" });
    for (p, x) in &before {
        match after.get(p) {
            None => viol!("{}: {} was removed", what, p.display()),
            Some(y) if x != y => viol!("{}: {} was changed from {:?} to {:?}", what, p.display(), (&x.0, &x.1, x.2), (&y.0, &y.1, y.2)),
            _ => {}
        }
    }
    let drel = dest.strip_prefix(&area).unwrap();
    for p in after.keys() {
        if !before.contains_key(p) && !p.starts_with(drel) && !drel.starts_with(p) {
            viol!("{}: {} was created outside of the destination ({})", what, p.display(), o.brief());
        }
    }
    if c.hostile.is_empty() || !tree.is_dir() {
        let conflict = !linked.is_empty() || present.as_ref().map(|p| in_the_way(&tree, p)).unwrap_or(false);
        // A trailing slash names a directory.
        let odd = !tree.is_dir() && arg.ends_with('/');
        if conflict && o.ok() {
            viol!("{}, links at {:?}: succeeds although something is in the way: {}", what, linked, o.brief());
        }
        if !conflict && !o.ok() && !odd {
            viol!("{}: fails although nothing is in the way: {}", what, o.brief());
        }
        if o.ok() {
            let mut want = present.clone().unwrap_or_else(M::empty);
            overlay(&mut want, &tree);
            let got = read_tree(&dest, &[])?;
            if got != want {
                viol!("{}: gives {:?}, expected {:?}", what, got, want);
            }
        }
        out.label(conflict, "conflict");
        out.label(!linked.is_empty(), "link");
        out.label(!conflict && present.is_some(), "merge");
        out.nontrivial = present.is_some();
    } else {
        out.label(!o.ok(), "refused");
        out.nontrivial = true;
    }
    Ok(out)
}

// ---- things appearing while a fetch runs ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    tree: Node,
    dest: u8,
    /// A directory is there already, with these paths of the tree made directories
    there: bool,
    /// At which operation, what appears at which path of the tree: file, directory, link, or something next to it
    stops: Vec<(u16, Vec<(u16, u8)>)>,
}

fn races(_: Tier) -> BoxedStrategy<Race> {
    let node = prop_oneof![6 => tree_with(content(), name(), 2, 3), 1 => content().prop_map(Node::F)];
    (node, 0u8..3, any::<bool>(), vec((any::<u16>(), vec((any::<u16>(), 0u8..5), 1..4)), 1..4))
        .prop_map(|(tree, dest, there, stops)| Race { tree, dest, there, stops })
        .boxed()
}

fn run_race(env: &Env, c: &Race) -> Res {
    use crate::c17::{Proc, W};
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let tree = model(&c.tree);
    let src = base.join("src");
    write_tree(&src, &tree)?;
    let key = r.insert(&src)?;
    let area = base.join("area");
    let (arg, dest) = match c.dest {
        0 => ("../area/dest", area.join("dest")),
        1 => ("../area/./x/dest", area.join("x/dest")),
        _ => ("../area/x/y/dest", area.join("x/y/dest")),
    };
    let prepare = || -> Result<(), Fail> {
        if area.exists() {
            std::fs::remove_dir_all(&area)?;
        }
        std::fs::create_dir_all(&area)?;
        std::fs::write(area.join("neighbour"), "neighbour")?;
        if c.there && tree.is_dir() {
            std::fs::create_dir_all(&dest)?;
        }
        Ok(())
    };
    let cmd = || {
        let mut k = r.cmd(&r.root, &["fetch", &key, arg]);
        k.env("LD_PRELOAD", &env.ctx.shim).env("VC_DIR", &area).env("VC_DIR2", r.root.join("../area"));
        k
    };
    prepare()?;
    let sites = base.join("sites");
    let mut k = cmd();
    k.env("VC_SITES", &sites);
    let o = output(k)?;
    if !o.ok() {
        viol!("fetch fails although nothing is in the way: {}", o.brief());
    }
    let n = std::fs::read(&sites)?.len() / 5;
    if n == 0 {
        viol!("fetch creates nothing: {}", o.brief());
    }
    prepare()?;
    let mut ats: Vec<(usize, &Vec<(u16, u8)>)> = c.stops.iter().map(|s| (1 + s.0 as usize * n / 65536, &s.1)).collect();
    ats.sort_by_key(|x| x.0);
    ats.dedup_by_key(|x| x.0);
    let mut k = cmd();
    k.env("VC_ACT", "stop").env("VC_AT", ats.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","));
    let mut foreign: BTreeMap<PathBuf, Option<Vec<u8>>> = BTreeMap::new();
    foreign.insert("neighbour".into(), Some(b"neighbour".to_vec()));
    let mut paths: Vec<(String, &M)> = vec![(String::new(), &tree)];
    paths.extend(tree.paths());
    let (mut in_way, mut i) = (vec![], 0);
    let mut p = Proc::start(k, &base, "fetch")?;
    let mut st = p.wait()?;
    let o = loop {
        match st {
            W::Done(o) => break o,
            W::Stopped => {
                for (q, kind) in ats[i].1 {
                    let (q, m) = pick(&paths, *q).unwrap();
                    let mut at = if q.is_empty() { dest.clone() } else { dest.join(&q) };
                    if *kind == 4 {
                        at.set_file_name("someone else's");
                    }
                    if std::fs::symlink_metadata(&at).is_ok() {
                        continue;
                    }
                    // What is to lie below comes into being with it
                    if i % 2 == 0 && std::fs::create_dir_all(at.parent().unwrap()).is_err() {
                        continue;
                    }
                    let rel = at.strip_prefix(&area).unwrap().to_path_buf();
                    let content = format!("theirs {}", at.display()).into_bytes();
                    let done = match kind {
                        0 | 1 | 4 => std::fs::write(&at, &content).is_ok(),
                        2 => std::fs::create_dir(&at).is_ok(),
                        _ => !m.is_dir() && std::os::unix::fs::symlink(area.join("neighbour"), &at).is_ok(),
                    };
                    if done {
                        foreign.insert(rel, match kind {
                            0 | 1 | 4 => Some(content),
                            2 => None,
                            _ => Some(b"neighbour".to_vec()),
                        });
                        if *kind != 4 && !(*kind == 2 && m.is_dir()) {
                            in_way.push(q);
                        }
                    }
                }
                i += 1;
                st = p.cont()?;
            }
        }
    };
    let what = format!("fetch of {:?} to {}, stopped at {:?} of {}: {:?}", tree, arg, ats.iter().map(|x| x.0).collect::<Vec<_>>(), n, c.stops);
    for (q, x) in &foreign {
        match x {
            None if area.join(q).is_dir() => {}
            Some(x) if std::fs::read(area.join(q)).ok().as_ref() == Some(x) => {}
            _ => viol!("{}: {} appeared meanwhile and was changed or removed ({})", what, q.display(), o.brief()),
        }
    }
    if o.ok() {
        if let Some(q) = in_way.first() {
            viol!("{}: succeeds although something else was put at {:?} first", what, q);
        }
        for (q, m) in &paths {
            let at = if q.is_empty() { dest.clone() } else { dest.join(q) };
            let ok = match m {
                M::D(_) => at.is_dir(),
                M::F(b) => std::fs::read(&at).ok().as_ref() == Some(&**b),
            };
            if !ok {
                viol!("{}: succeeds, but {:?} is not as stored", what, q);
            }
        }
    } else if in_way.is_empty() {
        viol!("{}: fails although nothing was in the way: {}", what, o.brief());
    }
    out.label(!in_way.is_empty(), "put in the way");
    out.label(foreign.len() > 1 && in_way.is_empty(), "only beside");
    out.nontrivial = foreign.len() > 1;
    Ok(out)
}

fn in_the_way(t: &M, p: &M) -> bool {
    match (t, p) {
        (M::D(a), M::D(b)) => a.iter().any(|(n, x)| b.get(n).map(|y| in_the_way(x, y)).unwrap_or(false)),
        _ => true,
    }
}

fn overlay(p: &mut M, t: &M) {
    match (p, t) {
        (M::D(a), M::D(b)) => {
            for (n, x) in b {
                match a.get_mut(n) {
                    Some(y) => overlay(y, x),
                    None => {
                        a.insert(n.clone(), x.clone());
                    }
                }
            }
        }
        (p, t) => *p = t.clone(),
    }
}

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "Fetching generated trees to places that already hold other trees (overlapping, partly in the way, links in \
               place of files), fetching handmade objects with hostile entry names, and fetching while files, directories \
               and links appear at generated moments; everything around the destination \
               is compared before and after. Non-trivial: something is at the destination, or a hostile name.",
        assumptions: vec!["no symbolic links to directories below the destination"],
        parts: vec![
            Box::new(part("existing", 1500, 25000, |_: Tier| cases(false), run)),
            Box::new(part("hostile", 1000, 15000, |_: Tier| cases(true), run)),
            Box::new(part("appearing", 700, 10000, races, run_race)),
        ],
    }
}
