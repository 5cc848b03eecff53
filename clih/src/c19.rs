//! C19: checkout makes the directory equal to the tree, or refuses without touching anything.
use crate::{c14::sync_around, cli::*, db, excl::*, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

/// The one directory where checkout is enabled. run.sh puts an empty file system there.
pub const ENABLED: &str = "/home/jess/src/snapcd/repo";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    head: Node,
    /// Edits between commits on other refs
    more: Vec<Vec<Edit>>,
    on: u16,
    edits: Vec<Edit>,
    pats: Vec<Pat>,
    /// Where the repository folder lies
    place: u8,
    cwd: u16,
    again: bool,
    /// Bits flipped in files, which keep size and modification time
    #[serde(default)]
    flips: Vec<(u16, u32)>,
}

/// Also larger files than most.
fn content() -> BoxedStrategy<Content> {
    prop_oneof![12 => crate::excl::content(), 2 => (any::<u32>(), 1000u32..20_000).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]), 1 => medium_content(), 1 => large_content()].boxed()
}

fn flips() -> BoxedStrategy<Vec<(u16, u32)>> {
    prop_oneof![1 => Just(vec![]), 1 => vec((any::<u16>(), any::<u32>()), 1..3)].boxed()
}

/// Flips bits on disk and in the model.
fn flip(root: &Path, work: &mut M, flips: &[(u16, u32)], but: &str) -> Result<(), Fail> {
    for (at, n) in flips {
        let files: Vec<_> = work.files().into_iter().filter(|f| !f.1.is_empty() && !f.0.split('/').any(|x| x == but)).collect();
        if let Some((q, b)) = pick(&files, *at) {
            let mut b = b.to_vec();
            let i = *n as usize % b.len();
            b[i] ^= 1 << (n >> 29);
            let f = p(root, &q);
            let md = std::fs::metadata(&f)?;
            std::fs::write(&f, &b)?;
            std::fs::File::options().write(true).open(&f)?.set_modified(md.modified()?)?;
            work.put(&q, M::file(&b));
        }
    }
    Ok(())
}

pub fn cases(excl: bool) -> BoxedStrategy<Case> {
    let pats = if excl { pats(3).boxed() } else { prop_oneof![4 => Just(vec![]), 1 => pats(3)].boxed() };
    let e = || vec(edit(content()), 0..4);
    (tree_with(content(), name_pool(), 3, 4), vec(e(), 0..3), any::<u16>(), vec(edit(content()), 0..5), pats, 0u8..6, (any::<u16>(), any::<bool>()), flips())
        .prop_map(|(head, more, on, edits, pats, place, (cwd, again), flips)| Case { head, more, on, edits, pats, place, cwd, again, flips })
        .boxed()
}

struct Area(PathBuf);
impl Drop for Area {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A directory of this case's own inside the enabled one.
fn area(env: &Env) -> Result<Area, Fail> {
    let n = env.fresh();
    let name: Vec<String> = n.components().rev().take(2).map(|c| c.as_os_str().to_string_lossy().replace(' ', "_")).collect();
    let p = Path::new(ENABLED).join(name.join("-"));
    if let Err(e) = std::fs::create_dir(&p) {
        return Err(Fail::Infra(format!("{} is not available: {}", p.display(), e)));
    }
    Ok(Area(p))
}

/// What must be kept and what must be removed is decided path by path.
fn judge(before: &M, after: &M, tree: &M, x: &Excl, what: &str) -> Result<(), Fail> {
    for t in x.tops(before) {
        let (b, a) = (before.get(&t), after.get(&t));
        if a != b {
            viol!("{}: excluded {:?} was changed from {:?} to {:?}", what, t, b, a);
        }
    }
    let want = x.strip(tree);
    let mut got = x.strip(after);
    // Directories that are kept only because of what is excluded in them
    for (p, m) in x.strip(after).paths().into_iter().rev() {
        if m.is_dir() && want.get(&p).is_none() && got.get(&p).map(|g| g.dir().is_empty()).unwrap_or(false) {
            let holds = x.tops(before).iter().any(|t| t.starts_with(&format!("{}/", p)));
            if holds {
                got.remove(&p);
            }
        }
    }
    if got != want {
        viol!("{}: the directory is {:?}\nexpected {:?}\nbefore {:?}", what, got, want, before);
    }
    Ok(())
}

/// Whether a file stands where the tree has a directory or the other way round, so that checkout may fail.
fn kinds_clash(before: &M, tree: &M, x: &Excl) -> bool {
    fn rec(b: &M, t: &M, at: &str, x: &Excl) -> bool {
        match (b, t) {
            (M::D(b), M::D(t)) => t.iter().any(|(n, c)| {
                let q = join(at, n);
                !x.hit(&q) && b.get(n).map(|o| rec(o, c, &q, x)).unwrap_or(false)
            }),
            (M::F(_), M::F(_)) => false,
            _ => true,
        }
    }
    rec(before, tree, "", x)
}

pub fn run_in(env: &Env, c: &Case) -> Res {
    let area = area(env)?;
    let base = env.fresh();
    let mut out = Out::default();
    let mut r = Repo::at(env, &base);
    r.root = area.0.join("r");
    std::fs::create_dir(&r.root)?;
    std::fs::create_dir(area.0.join("outside"))?;
    std::fs::write(area.0.join("outside/f"), "outside")?;
    std::fs::write(area.0.join("r2"), "neighbour")?;
    let folder: &str = match c.place {
        0 | 1 | 2 => ".snapcd",
        3 => "db",
        4 => ".snap",
        _ => "store d",
    };
    match c.place {
        0 | 1 | 2 => {}
        3 => r.global = vec!["-d".into(), r.root.join("db").to_str().unwrap().into()],
        _ => r.global = vec!["-d".into(), folder.into()],
    }
    let clean = |mut m: M| {
        m.dir_mut().remove(folder);
        m
    };
    let fo = Some(folder.to_string());
    r.must(&["init"])?;
    let dbf = r.root.join(folder).join("snapcd.db");
    let mut work = clean(model(&c.head));
    let mut trees = vec![];
    for i in 0..=c.more.len() {
        if i > 0 {
            for e in &c.more[i - 1] {
                apply_edit(&mut work, e);
            }
            work = clean(work);
        }
        sync_around(&r.root, &work, &fo)?;
        let name = format!("ref{}", i);
        r.must(&["commit", "-m", "m", &name])?;
        trees.push((name, work.clone()));
    }
    let (name, tree) = pick(&trees, c.on).unwrap();
    r.must(&["debug", "set-head", &name])?;
    for e in &c.edits {
        apply_edit(&mut work, e);
    }
    work = clean(work);
    sync_around(&r.root, &work, &fo)?;
    flip(&r.root, &mut work, &c.flips, folder)?;
    let mut paths: Vec<String> = work.paths().into_iter().map(|x| x.0).collect();
    paths.extend(tree.paths().into_iter().map(|x| x.0));
    paths.sort();
    paths.dedup();
    let (args, x) = resolve(&c.pats, &paths, &format!("{}/", r.root.to_str().unwrap()), fo.clone());
    // Run from somewhere below that will still be there
    let dirs: Vec<String> = work.dirs().into_iter().filter(|d| tree.get(d).map(|m| m.is_dir()).unwrap_or(false)).collect();
    let cwd = match pick(&dirs, c.cwd) {
        Some(d) if c.cwd % 3 == 0 && !d.split('/').any(|x| x == folder) => r.root.join(d),
        _ => r.root.clone(),
    };
    let nested = work.paths().iter().chain(&tree.paths()).any(|f| f.0.rsplit('/').next() == Some(folder));
    let cwd = if nested { r.root.clone() } else { cwd };
    for round in 0..2 {
        let dbs = db::load(&dbf)?;
        let fs = crate::c08::snapshot(&r.root.join(folder))?.into_iter().map(|x| x.0).collect::<Vec<_>>();
        let outside = crate::c08::snapshot(&area.0.join("outside"))?;
        let mut a: Vec<String> = args.clone();
        a.push("checkout".into());
        let before = work.clone();
        let o = r.run_in(&cwd, &a)?;
        let after = clean(read_tree(&r.root, &[])?);
        let what = format!("checkout {:?} of {:?} (round {}) with {:?}", args, tree, round, before);
        if !dbs.same(&db::load(&dbf)?) {
            viol!("{}: changed the repository: {}", what, dbs.diff(&db::load(&dbf)?));
        }
        if fs != crate::c08::snapshot(&r.root.join(folder))?.into_iter().map(|x| x.0).collect::<Vec<_>>() {
            viol!("{}: changed the repository folder", what);
        }
        if outside != crate::c08::snapshot(&area.0.join("outside"))? || std::fs::read(area.0.join("r2"))? != b"neighbour" {
            viol!("{}: changed files outside of the working directory", what);
        }
        let clash = kinds_clash(&before, &tree, &x);
        if o.ok() {
            judge(&before, &after, &tree, &x, &what)?;
        } else {
            if !clash {
                viol!("{} fails: {}", what, o.brief());
            }
            for t in x.tops(&before) {
                if after.get(&t) != before.get(&t) {
                    viol!("{}: excluded {:?} was changed by a failing checkout", what, t);
                }
            }
        }
        out.label(clash, "kinds-clash");
        if round == 0 {
            out.label(!x.tops(&before).is_empty(), "excludes");
            out.nontrivial = o.ok() && x.strip(&before) != x.strip(&tree);
        }
        work = after;
        if !c.again {
            break;
        }
    }
    // Without patterns status agrees that nothing differs.
    if args.is_empty() && out.nontrivial {
        let o = r.run(&["status"])?;
        if o.lines().len() != 1 {
            viol!("after checkout of {:?} status prints {:?}", tree, o.text());
        }
    }
    Ok(out)
}

// ---- links in the working directory ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Links {
    head: Node,
    edits: Vec<Edit>,
    outside: Node,
    /// Place (numbers of paths of the tree or the directory, or new ones), kind and target
    links: Vec<(u16, u8, u16)>,
}

fn links_cases(_: Tier) -> BoxedStrategy<Links> {
    let t = |d, n| tree_with(content(), name_pool(), d, n);
    (t(3, 4), vec(edit(content()), 0..3), t(2, 3), vec((any::<u16>(), 0u8..10, any::<u16>()), 1..4))
        .prop_map(|(head, edits, outside, links)| Links { head, edits, outside, links })
        .boxed()
}

fn run_links(env: &Env, c: &Links) -> Res {
    let area = area(env)?;
    let base = env.fresh();
    let mut out = Out::default();
    let mut r = Repo::at(env, &base);
    r.root = area.0.join("r");
    std::fs::create_dir(&r.root)?;
    r.must(&["init"])?;
    let tree = crate::c09::no_db(model(&c.head));
    sync_tree(&r.root, &tree, &[".snapcd"])?;
    r.must(&["commit", "-m", "m"])?;
    let mut work = tree.clone();
    for e in &c.edits {
        apply_edit(&mut work, e);
    }
    work = crate::c09::no_db(work);
    sync_tree(&r.root, &work, &[".snapcd"])?;
    // The same names are outside as well, so that following a link would find something
    let outer = area.0.join("outside");
    write_tree(&outer, &model(&c.outside))?;
    std::fs::create_dir(outer.join("like"))?;
    write_tree(&outer.join("like/it"), &tree)?;
    let mut planted: Vec<String> = vec![];
    for (at, kind, to) in &c.links {
        let mut places: Vec<String> = work.paths().into_iter().chain(tree.paths()).map(|x| x.0).filter(|x| !x.is_empty()).collect();
        places.extend(work.dirs().into_iter().map(|d| format!("{}/zz-link", d)));
        places.push("zz-link".into());
        places.sort();
        places.dedup();
        // Not below another link, and where there is a directory to put it into
        places.retain(|q| {
            let up = q.rsplitn(2, '/').nth(1).unwrap_or("");
            !planted.iter().any(|x| x == q || q.starts_with(&format!("{}/", x))) && (up.is_empty() || work.get(up).map(|m| m.is_dir()).unwrap_or(false))
        });
        let q = match pick(&places, *at) {
            Some(q) => q,
            None => continue,
        };
        let f = r.root.join(&q);
        if let Ok(md) = std::fs::symlink_metadata(&f) {
            if md.is_dir() {
                std::fs::remove_dir_all(&f)?;
            } else {
                std::fs::remove_file(&f)?;
            }
        }
        work.remove(&q);
        planted.retain(|x| !x.starts_with(&format!("{}/", q)));
        let outs: Vec<PathBuf> = crate::c08::snapshot(&outer)?.into_iter().map(|x| outer.join(x.0)).collect();
        let ins: Vec<PathBuf> = work.paths().into_iter().map(|x| r.root.join(x.0)).collect();
        let files = |v: Vec<PathBuf>| v.into_iter().filter(|x| std::fs::symlink_metadata(x).map(|m| m.is_file()).unwrap_or(false)).collect::<Vec<_>>();
        let hard = match kind {
            6 => pick(&files(outs.clone()), *to),
            7 => Some(outer.join("like/it").join(&q)).filter(|x| x.is_file()).or_else(|| pick(&files(outs.clone()), *to)),
            8 => pick(&files(ins.clone()), *to),
            _ => None,
        };
        if let Some(t) = hard {
            std::fs::hard_link(&t, &f)?;
            out.label(true, if *kind == 8 { "hard-inwards" } else { "hard-outwards" });
            planted.push(q);
            continue;
        }
        if *kind == 9 {
            let c = std::ffi::CString::new(f.as_os_str().as_bytes()).unwrap();
            if unsafe { libc::mkfifo(c.as_ptr(), 0o644) } != 0 {
                return Err(std::io::Error::last_os_error().into());
            }
            out.label(true, "fifo");
            planted.push(q);
            continue;
        }
        let t = match kind {
            0 | 1 => pick(&outs, *to).unwrap_or_else(|| outer.clone()),
            2 => outer.join("like/it").join(&q),
            3 => outer.join("none"),
            4 => pick(&ins, *to).unwrap_or_else(|| r.root.join("none")),
            _ => PathBuf::from("none/none"),
        };
        std::os::unix::fs::symlink(&t, &f)?;
        out.label(t.starts_with(&outer) && t.exists(), "outwards");
        out.label(t.starts_with(&r.root), "inwards");
        out.label(!t.exists(), "dangling");
        planted.push(q);
    }
    let before = crate::c08::snapshot(&outer)?;
    let dbs = db::load(&r.db())?;
    let what = format!("checkout of {:?} with {:?} and links at {:?} ({:?})", tree, work, planted, c.links);
    let o = r.run(&["checkout"])?;
    let after = crate::c08::snapshot(&outer)?;
    if before != after {
        viol!("{} changed files outside of the directory: {:?}\nto {:?}", what, before, after);
    }
    if !dbs.same(&db::load(&r.db())?) {
        viol!("{} changed the repository", what);
    }
    if o.ok() {
        let got = read_followed(&r.root, &[".snapcd"])?;
        if got != tree {
            viol!("{}: the directory is {:?}", what, got);
        }
        out.nontrivial = !planted.is_empty();
    } else {
        // A file or directory in place of the other may make it fail, a link must be dealt with or refused
        out.label(true, "refused");
    }
    Ok(out)
}

// ---- crafted names ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    tree: Node,
    work: Node,
    hostile: Vec<(u16, u8)>,
}

fn hostile_cases(_: Tier) -> BoxedStrategy<Hostile> {
    let t = || tree_with(content(), name_pool(), 2, 3);
    (t(), t(), vec((any::<u16>(), any::<u8>()), 1..3)).prop_map(|(tree, work, hostile)| Hostile { tree, work, hostile }).boxed()
}

fn run_hostile(env: &Env, c: &Hostile) -> Res {
    let area = area(env)?;
    let base = env.fresh();
    let mut r = Repo::at(env, &base);
    r.root = area.0.join("x/r");
    std::fs::create_dir_all(&r.root)?;
    std::fs::create_dir(area.0.join("outside"))?;
    for f in &["outside/f", "x/f", "f"] {
        std::fs::write(area.0.join(f), "outside")?;
    }
    r.must(&["init"])?;
    let mut work = model(&c.work);
    work.dir_mut().remove(".snapcd");
    sync_tree(&r.root, &work, &[".snapcd"])?;
    let abs = |s: &str| area.0.join(s).to_str().unwrap().to_string();
    let names: Vec<String> = vec![
        "..".into(), "../f".into(), "../../f".into(), abs("f"), abs("outside"), "sub/../../f".into(), "../escaped".into(), "../../escaped".into(),
        "../../outside/f".into(), "../../outside".into(), abs("escaped"), "./../f".into(), "..//f".into(), "../r2".into(),
    ];
    let mut objs = fmt::Objs::new();
    let mut at = 0;
    let k = crate::c08::put_hostile(&mut objs, &model(&c.tree), &mut at, &c.hostile, &names);
    let k = fmt::put_commit(&mut objs, k, &[], "hostile");
    let conn = db::open(&r.db())?;
    conn.execute_batch("BEGIN")?;
    for (k, v) in &objs {
        conn.execute("INSERT OR IGNORE INTO data VALUES (?, ?)", rusqlite::params![fmt::dbkey(k), &v[..]])?;
    }
    conn.execute("INSERT INTO reflog(refname, remote, key) VALUES ('master', NULL, ?)", rusqlite::params![fmt::dbkey(&k)])?;
    conn.execute_batch("COMMIT")?;
    drop(conn);
    let outer = |area: &Path| -> Result<_, Fail> {
        let mut m = crate::c08::snapshot(area)?;
        m.retain(|p, _| !p.starts_with("x/r"));
        Ok(m)
    };
    let before = outer(&area.0)?;
    let o = r.run(&["checkout"])?;
    let after = outer(&area.0)?;
    if before != after {
        viol!("checkout of a tree with hostile names {:?} changed {:?} into {:?}: {}", c.hostile, before.keys(), after.keys(), o.brief());
    }
    let mut out = Out::default();
    out.nontrivial = true;
    out.label(!o.ok(), "refused");
    Ok(out)
}

// ---- anywhere else ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Elsewhere {
    head: Node,
    edits: Vec<Edit>,
    place: u8,
    fresh: bool,
}

fn elsewhere_cases(_: Tier) -> BoxedStrategy<Elsewhere> {
    (tree_with(content(), name_pool(), 2, 4), vec(edit(content()), 0..5), 0u8..10, prop::bool::weighted(0.1))
        .prop_map(|(head, edits, place, fresh)| Elsewhere { head, edits, place, fresh })
        .boxed()
}

fn run_elsewhere(env: &Env, c: &Elsewhere) -> Res {
    let inside = area(env)?;
    let base = env.fresh();
    let mut out = Out::default();
    let mut r = Repo::at(env, &base);
    let unique = inside.0.file_name().unwrap().to_str().unwrap().to_string();
    let near = Path::new(ENABLED).parent().unwrap();
    let mut cleanup = None;
    let up = "../".repeat(20);
    let strip = |p: &Path| p.to_str().unwrap().trim_start_matches('/').to_string();
    let mut cwd = None;
    match c.place {
        // Names close to the one where it is enabled
        1 => r.root = near.join(format!("repo2{}", unique)),
        2 => r.root = near.join(format!("rep{}", unique)),
        3 => r.root = near.join(unique.clone()),
        4 => r.root = base.join("home/jess/src/snapcd/repo"),
        // The way there leads through it
        5 => {
            let d = format!("{}/{}{}/.snapcd", ENABLED, up, strip(&r.root));
            r.global = vec!["-d".into(), d];
        }
        6 => {
            let d = format!("{}{}/.snapcd", up, strip(&r.root));
            r.global = vec!["-d".into(), d];
            cwd = Some(inside.0.clone());
        }
        7 => {
            r.root = near.join(format!("n{}", unique));
            let d = format!("{}/../n{}/.snapcd", ENABLED, unique);
            r.global = vec!["-d".into(), d];
        }
        8 => {
            // The repository folder is below another repository's directory, run from inside the enabled one
            r.global = vec!["-d".into(), r.root.join(".snapcd").to_str().unwrap().into()];
            cwd = Some(inside.0.clone());
        }
        // So does a link in it
        9 => {
            let l = inside.0.join("link");
            std::os::unix::fs::symlink(&r.root, &l)?;
            r.global = vec!["-d".into(), l.join(".snapcd").to_str().unwrap().into()];
            cwd = Some(inside.0.clone());
        }
        _ => {}
    }
    if r.root.starts_with(near) {
        cleanup = Some(Area(r.root.clone()));
    }
    std::fs::create_dir_all(&r.root)?;
    let cwd = cwd.unwrap_or_else(|| r.root.clone());
    let run = |args: &[&str]| -> Result<O, Fail> { r.run_in(&cwd, args) };
    let must = |args: &[&str]| -> Result<O, Fail> {
        let o = run(args)?;
        if !o.ok() {
            viol!("{:?} {:?} fails: {}", r.global, args, o.brief());
        }
        Ok(o)
    };
    must(&["init"])?;
    let no_db = crate::c09::no_db;
    let tree = no_db(model(&c.head));
    sync_tree(&r.root, &tree, &[".snapcd"])?;
    must(&["commit", "-m", "m"])?;
    let mut work = if c.fresh { M::empty() } else { tree.clone() };
    for e in &c.edits {
        apply_edit(&mut work, e);
    }
    work = no_db(work);
    sync_tree(&r.root, &work, &[".snapcd"])?;
    let snap = |p: &Path| -> Result<_, Fail> {
        let mut m = crate::c08::snapshot(p)?;
        m.retain(|p, _| !p.ends_with(".snapcd/snapcd.db") && !p.ends_with(".snapcd/snapcd.db-journal"));
        Ok(m)
    };
    let dbs = db::load(&r.db())?;
    let before = (snap(&r.root)?, snap(&inside.0)?);
    let o = run(&["checkout"])?;
    let after = (snap(&r.root)?, snap(&inside.0)?);
    let what = format!("checkout in {} ({:?}) of {:?} with {:?}", r.root.display(), r.global, tree, work);
    if before != after || !dbs.same(&db::load(&r.db())?) {
        viol!("{} changed something: {:?}\nto {:?}\n{}", what, before, after, o.brief());
    }
    // With no file to write and nothing to remove there is nothing to refuse.
    let idle = tree.files().is_empty();
    if o.ok() && !idle {
        viol!("{} reports success: {}", what, o.brief());
    }
    out.nontrivial = !idle && tree != work;
    out.label(tree == work, "unchanged");
    out.label(c.place > 0, "misleading-path");
    drop(cleanup);
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "Inside the enabled directory: generated commits on several refs, edits, exclude patterns, checkout of HEAD, \
               compared with the tree on disk (also crafted entry names, and symbolic and hard links and pipes in the working directory; links may lead out of it). Elsewhere, also at paths \
               that look or lead like the enabled one: nothing may change and the command must fail. Non-trivial: checkout succeeds and had something to \
               change; elsewhere: would have had something to change.",
        assumptions: vec!["a file in place of a stored directory, or the other way round, may make checkout fail"],
        parts: vec![
            Box::new(part("inside", 700, 12000, |_| cases(false), run_in)),
            Box::new(part("excludes", 250, 4000, |_| cases(true), run_in)),
            Box::new(part("links", 300, 5000, links_cases, run_links)),
            Box::new(part("crafted", 150, 2500, hostile_cases, run_hostile)),
            Box::new(part("elsewhere", 350, 5000, elsewhere_cases, run_elsewhere)),
        ],
    }
}
