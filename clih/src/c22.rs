//! C22: commands find the enclosing repository from any directory.
use crate::{c09, cli::*, db, db::Db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

const FOLDERS: &[&str] = &[".snapcd", "db", "meta/db", ".snapcd2", "x y"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    edits: Vec<Edit>,
    /// Repositories: (directory, folder name)
    repos: Vec<(u16, u8)>,
    cwds: Vec<(u16, u8)>,
    dest: u16,
    /// How the current directory is entered: what PWD says
    #[serde(default)]
    pwd: u8,
    /// Where the home directory lies, with the cache elsewhere
    #[serde(default)]
    home: u8,
    /// How the folder is written
    #[serde(default)]
    spelt: u8,
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    let f = || prop_oneof![4 => Just(0u8), 2 => 0u8..FOLDERS.len() as u8];
    (
        prop_oneof![6 => tree_with(c09::content(), name(), 4, 3), 1 => deep_tree()],
        vec(edit(c09::content()), 0..4),
        vec((prop_oneof![2 => Just(0u16), 3 => any::<u16>()], f()), 0..4),
        vec((any::<u16>(), f()), 1..4),
        any::<u16>(),
        0u8..8,
        (0u8..10, 0u8..10),
    )
        .prop_map(|(tree, edits, repos, cwds, dest, pwd, (home, spelt))| Case { tree, edits, repos, cwds, dest, pwd, home, spelt })
        .boxed()
}

fn args(folder: &str, a: &[&str]) -> Vec<String> {
    let mut v = vec![];
    if folder != ".snapcd" {
        v.push("-d".to_string());
        v.push(folder.to_string());
    }
    v.extend(a.iter().map(|x| x.to_string()));
    v
}

#[derive(Clone)]
struct R {
    /// Directory the folder name is relative to
    at: PathBuf,
    folder: &'static str,
}
impl R {
    fn db(&self) -> PathBuf {
        self.at.join(self.folder).join("snapcd.db")
    }
    /// The working tree: where the folder itself lies
    fn work(&self) -> PathBuf {
        self.at.join(self.folder).parent().unwrap().to_path_buf()
    }
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut out = Out::default();
    let r = Repo::at(env, &base);
    let top = base.join("area");
    std::fs::create_dir(&top)?;
    let mut m = model(&c.tree);
    // Names taken by repository folders
    for n in &["db", "meta", ".snapcd", ".snapcd2", "x y"] {
        for d in m.dirs().into_iter().chain(std::iter::once(String::new())).rev() {
            m.remove(&join(&d, n));
        }
    }
    write_tree(&top, &m)?;
    let dirs: Vec<String> = std::iter::once(String::new()).chain(m.dirs()).collect();
    let mut repos: Vec<R> = vec![];
    for (d, f) in &c.repos {
        let mut d = pick(&dirs, *d).unwrap();
        // SQLite opens no path of more than 512 bytes.
        while d.len() > 380 {
            d = d.rsplit_once('/').unwrap().0.to_string();
        }
        let x = R { at: p(&top, &d), folder: FOLDERS[*f as usize] };
        if repos.iter().any(|y| y.at.join(y.folder) == x.at.join(x.folder)) {
            continue;
        }
        let others: Vec<Db> = repos.iter().map(|y| db::load(&y.db())).collect::<Result<_, _>>()?;
        let o = r.run_in(&x.at, &args(x.folder, &["init"]))?;
        if !o.ok() || !x.db().is_file() {
            viol!("init of {:?} in {:?} fails: {}", x.folder, x.at, o.brief());
        }
        for (y, before) in repos.iter().zip(&others) {
            if db::load(&y.db())? != *before {
                viol!("init in {:?} changed the repository in {:?}", x.at, y.at);
            }
        }
        repos.push(x);
    }
    // A first commit in each, run at its root
    for (i, x) in repos.iter().enumerate() {
        let msg = format!("first of {}", i);
        let o = r.run_in(&x.at, &args(x.folder, &["commit", "-m", &msg]))?;
        if !o.ok() {
            viol!("commit in {:?} fails: {}", x.at, o.brief());
        }
    }
    // Edits, keeping the directories used
    let mut work = m.clone();
    for e in &c.edits {
        apply_edit(&mut work, e);
    }
    let in_repo: Vec<PathBuf> = repos.iter().map(|x| x.work()).collect();
    for (q, n) in work.paths() {
        let fs = top.join(&q);
        match n {
            M::F(b) if !fs.is_dir() && fs.parent().unwrap().is_dir() && !q.contains(".snapcd/") => std::fs::write(&fs, &**b)?,
            M::D(_) if std::fs::symlink_metadata(&fs).is_err() && fs.parent().unwrap().is_dir() => std::fs::create_dir(&fs)?,
            _ => {}
        }
    }
    let _ = in_repo;
    let mut all: Vec<PathBuf> = vec![];
    fn subdirs(d: &Path, v: &mut Vec<PathBuf>) -> Result<(), Fail> {
        v.push(d.to_path_buf());
        let mut es: Vec<PathBuf> = std::fs::read_dir(d)?.map(|e| e.map(|e| e.path())).collect::<Result<_, _>>()?;
        es.sort();
        for e in es {
            if e.is_dir() {
                subdirs(&e, v)?;
            }
        }
        Ok(())
    }
    subdirs(&top, &mut all)?;
    // Repositories that do not enclose any of it
    let aside = base.join("aside");
    if c.pwd >= 5 {
        std::fs::create_dir(&aside)?;
        for f in FOLDERS {
            let o = r.run_in(&aside, &args(f, &["init"]))?;
            if !o.ok() {
                viol!("init of {:?} fails: {}", f, o.brief());
            }
        }
    }
    for (i, (n, f)) in c.cwds.iter().enumerate() {
        let cwd = pick(&all, *n).unwrap();
        let folder = FOLDERS[*f as usize];
        // The directory is what counts, not the name it was entered by.
        let link = aside.join(format!("l{}", i));
        if c.pwd >= 5 {
            std::os::unix::fs::symlink(&cwd, &link)?;
        }
        // Nor does the home directory count.
        let ups: Vec<&Path> = cwd.ancestors().take_while(|a| a.starts_with(&top)).collect();
        let home = match c.home {
            0 => cwd.clone(),
            1 => ups[ups.len() / 2].to_path_buf(),
            2 => top.clone(),
            3 if c.pwd >= 5 => aside.clone(),
            4 => all[i % all.len()].clone(),
            _ => r.home.clone(),
        };
        // The nearest directory upwards that holds the folder
        let found = cwd.ancestors().take_while(|a| a.starts_with(&top)).find(|a| a.join(folder).is_dir()).map(|a| R { at: a.to_path_buf(), folder });
        let spelt = match (c.spelt, &found) {
            (0, _) => format!("./{}", folder),
            (1, _) => format!("{}/", folder),
            (2, _) => format!("{}/.", folder),
            (3, _) => format!("{}//", folder.replace('/', "//./")),
            (4, Some(x)) | (5, Some(x)) => x.at.join(folder).to_str().unwrap().to_string(),
            _ => folder.to_string(),
        };
        let go = |a: &[&str]| -> Result<O, Fail> {
            let at = if c.pwd >= 5 { &link } else { &cwd };
            let mut k = r.cmd(at, &args(&spelt, a));
            match c.pwd {
                0 | 5 => k.env("PWD", at),
                1 => k.env("PWD", &base),
                2 => k.env("PWD", "/does/not/exist"),
                6 => k.env("PWD", at).env("OLDPWD", &cwd),
                7 => k.env("PWD", at.join(".")),
                _ => k.env_remove("PWD"),
            };
            if c.home < 6 {
                k.env("HOME", &home).env("XDG_CACHE_HOME", r.home.join("cache"));
            }
            output(k)
        };
        let known = found.clone().filter(|x| repos.iter().any(|y| y.at.join(y.folder) == x.at.join(x.folder)));
        let what = format!("in {:?} with folder {:?}", cwd.strip_prefix(&top).unwrap(), folder);
        let x = match (found, known) {
            (None, _) => {
                let r = Repo { home: base.join("h2"), ..r.clone() };
                if c.pwd >= 5 && c.home < 4 {
                    // A home directory that is a repository
                    let _ = std::os::unix::fs::symlink(&aside, &r.home);
                }
                outside(&r, &base, &top, &cwd, folder, &what)?;
                out.label(true, "no-repository");
                continue;
            }
            (Some(_), None) => continue,
            (_, Some(x)) => x,
        };
        out.nontrivial |= cwd != x.at;
        out.label(c.pwd >= 5, "entered by a link");
        out.label(c.home < 5 && cwd != x.at && cwd.starts_with(&home) && home.starts_with(&x.at), "home between it and the repository");
        out.label(c.home < 6, "home set");
        out.label(spelt != folder, "folder written otherwise");
        out.label(cwd.ancestors().skip(1).filter(|a| a.join(folder).is_dir()).count() > 0 && cwd.join(folder).is_dir() || repos.len() > 1, "several-repositories");
        out.label(cwd.starts_with(x.at.join(folder)), "inside-the-folder");
        // The same answers as at its root
        let others: Vec<(PathBuf, Db)> = repos.iter().filter(|y| y.db() != x.db()).map(|y| Ok((y.db(), db::load(&y.db())?))).collect::<Result<_, Fail>>()?;
        let head = db::load(&x.db())?.log("master", None)[0].clone();
        for a in &[
            &["status"][..],
            &["compare"],
            &["compare", "--stat"],
            &["ref", "log"],
            &["log"],
            &["debug", "get-head"],
            &["debug", "reflog-get", "master"],
            &["show", "/master"],
            &["debug", "pretty-print", &head],
        ] {
            let there = r.run_in(&x.at, &args(folder, a))?;
            let here = go(a)?;
            if sorted(&there) != sorted(&here) || there.code != here.code {
                viol!("{:?} {}: {}\nat the root of the repository: {}", a, what, here.brief(), there.brief());
            }
        }
        let rel = x.folder.rsplit('/').next().unwrap();
        let truth = |x: &R| -> Result<M, Fail> { read_tree(&x.work(), &[rel]) };
        let want = truth(&x)?;
        let o = go(&["commit", "-m", "from below", "below"])?;
        if !o.ok() {
            viol!("commit {} fails: {}", what, o.brief());
        }
        let d = db::load(&x.db())?;
        let got = committed(&d, "below")?;
        if got != want {
            viol!("commit {} stored {:?}\nexpected {:?}", what, got, want);
        }
        // Paths that are given are relative to the current directory.
        let sub: Vec<String> = {
            let mut v = vec![];
            for e in std::fs::read_dir(&cwd)? {
                if let Ok(n) = e?.file_name().into_string() {
                    if !n.starts_with('-') {
                        v.push(n);
                    }
                }
            }
            v.sort();
            v
        };
        if let Some(s) = pick(&sub, c.dest) {
            let full = cwd.join(&s);
            let dbdir = x.at.join(folder);
            if !full.starts_with(&dbdir) && !dbdir.starts_with(&full) {
                let want = read_tree(&full, &[])?;
                let o = go(&["insert", &s])?;
                if !o.ok() {
                    viol!("insert {:?} {} fails: {}", s, what, o.brief());
                }
                let k = key_of_insert(&o)?;
                let got = stored(&db::load(&x.db())?, &k)?;
                if got != want {
                    viol!("insert {:?} {} stored {:?}\nexpected {:?}", s, what, got, want);
                }
                let dest = cwd.join("fetched~here");
                let o = go(&["fetch", &k, "fetched~here"])?;
                if !o.ok() || read_tree(&dest, &[])? != want {
                    viol!("fetch {} of {} gives something else: {}", what, k, o.brief());
                }
                if dest.is_dir() {
                    std::fs::remove_dir_all(&dest)?;
                } else {
                    std::fs::remove_file(&dest)?;
                }
            }
        }
        for (p, before) in &others {
            if db::load(p)? != *before {
                viol!("commands {} changed the repository at {:?}", what, p);
            }
        }
    }
    Ok(out)
}

fn sorted(o: &O) -> Vec<String> {
    let mut v = o.lines();
    v.sort();
    v
}

fn stored(d: &Db, k: &str) -> Result<M, Fail> {
    let objs = match fmt::fsck(d) {
        Ok(o) => o,
        Err(e) => viol!("{}", e),
    };
    match fmt::read_model(&objs, &fmt::parse_key(k).unwrap()) {
        Ok(m) => Ok(m),
        Err(e) => viol!("{}", e),
    }
}

fn committed(d: &Db, name: &str) -> Result<M, Fail> {
    let k = match d.log(name, None).first() {
        Some(k) => fmt::parse_key(k).unwrap(),
        None => viol!("commit made no entry of {}", name),
    };
    match d.objects.get(&fmt::dbkey(&k)).map(|b| fmt::decode_object(b)) {
        Some(Ok(o)) => stored(d, &fmt::user_key(&o.keys[0])),
        x => viol!("entry of {} names {:?}", name, x),
    }
}

/// No repository: every command fails and creates nothing.
fn outside(r: &Repo, base: &Path, top: &Path, cwd: &Path, folder: &str, what: &str) -> Result<(), Fail> {
    let before = crate::c08::snapshot(top)?;
    let k = "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";
    let dest = base.join("never");
    for a in &[
        &["status"][..],
        &["compare"],
        &["compare", k],
        &["commit", "-m", "x"],
        &["insert", "."],
        &["fetch", k, dest.to_str().unwrap()],
        &["show"],
        &["show", k],
        &["log"],
        &["checkout"],
        &["checkout-head", "x"],
        &["ref", "log"],
        &["ref", "log", "master"],
        &["ref", "update", k],
        &["debug", "get-head"],
        &["debug", "set-head", "x"],
        &["debug", "reflog-get", "master"],
        &["debug", "walk-tree", k],
    ] {
        let o = r.run_in(cwd, &args(folder, a))?;
        if o.code == Some(0) {
            viol!("{:?} {} reports success without a repository: {}", a, what, o.brief());
        }
    }
    let after = crate::c08::snapshot(top)?;
    if before != after || dest.exists() {
        viol!("commands {} without a repository changed something: {:?} became {:?}", what, before.keys(), after.keys());
    }
    Ok(())
}

// ---- A nearest repository that cannot be used ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Closed {
    /// Directories between the outer and the inner repository, and from there to where commands run
    between: u8,
    below: u8,
    /// What is made inaccessible: the inner root, its folder, or its database
    which: u8,
    mode: u8,
    args: u8,
    folder: u8,
}

fn closed(env: &Env, c: &Closed) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let mut out = Out::default();
    if unsafe { libc::geteuid() } == 0 {
        out.label(true, "not as root");
        return Ok(out);
    }
    let base = env.fresh();
    let folder = [".snapcd", "db"][c.folder as usize % 2];
    let r = Repo::at(env, &base);
    let outer = R { at: base.join("outer"), folder };
    let mut d = outer.at.clone();
    for i in 0..=c.between % 3 {
        d.push(format!("i{}", i));
    }
    let inner = R { at: d.clone(), folder };
    for i in 0..=c.below % 3 {
        d.push(format!("b{}", i));
    }
    std::fs::create_dir_all(&d)?;
    std::fs::write(d.join("f"), "text\n")?;
    for x in &[&outer, &inner] {
        for a in &[&["init"][..], &["commit", "-m", "m"]] {
            let o = r.run_in(&x.at, &args(folder, a))?;
            if !o.ok() {
                viol!("{:?} fails: {}", a, o.brief());
            }
        }
    }
    std::fs::write(d.join("f"), "other\n")?;
    let before = (db::load(&outer.db())?, db::load(&inner.db())?);
    let target = match c.which % 3 {
        0 => inner.at.clone(),
        1 => inner.at.join(folder),
        _ => inner.db(),
    };
    let mode = [0u32, 0o400, 0o600, 0o200][c.mode as usize % 4] & if c.which % 3 == 2 { 0o200 } else { 0o600 };
    let old = std::fs::metadata(&target)?.permissions().mode() & 0o7777;
    let a: &[&str] = match c.args % 8 {
        0 => &["status"],
        1 => &["commit", "-m", "x"],
        2 => &["log"],
        3 => &["insert", "f"],
        4 => &["ref", "log"],
        5 => &["compare"],
        6 => &["debug", "set-head", "x"],
        _ => &["checkout-head", "x"],
    };
    // The permissions are taken away when the process already is where it is to run.
    let mut k = r.cmd(&d, &args(folder, a));
    let script = format!("chmod {:o} \"$0\" && exec \"$@\"", mode);
    let mut sh = std::process::Command::new("/bin/sh");
    sh.arg("-c").arg(script).arg(&target).arg(k.get_program()).args(k.get_args()).current_dir(&d).env_clear();
    for (n, v) in k.get_envs() {
        if let Some(v) = v {
            sh.env(n, v);
        }
    }
    let o = output(sh);
    std::fs::set_permissions(&target, std::fs::Permissions::from_mode(old))?;
    let o = o?;
    k.env_clear();
    let what = format!("{:?} where {} of the nearest repository has mode {:o}", a, ["the root", "the folder", "the database"][c.which as usize % 3], mode);
    if o.ok() {
        viol!("{} reports success: {}", what, o.brief());
    }
    let after = (db::load(&outer.db())?, db::load(&inner.db())?);
    if before.0 != after.0 {
        viol!("{} changed the outer repository", what);
    }
    if before.1 != after.1 {
        viol!("{} fails, but changed the repository", what);
    }
    out.nontrivial = true;
    out.labels.push(["root closed", "folder closed", "database closed"][c.which as usize % 3].into());
    Ok(out)
}

fn closed_cases(_: Tier) -> BoxedStrategy<Closed> {
    (0u8..3, 0u8..3, 0u8..3, 0u8..4, 0u8..8, 0u8..2)
        .prop_map(|(between, below, which, mode, args, folder)| Closed { between, below, which, mode, args, folder })
        .boxed()
}

pub fn check() -> Check {
    Check {
        id: "C22",
        level: "exploration",
        rule: "Generated directory trees with several, also nested, repositories of several folder names. From generated \
               directories below (also inside repository folders) all commands give what they give at the root of the nearest enclosing repository, \
               commit stores its whole working tree, given paths are relative to the current directory, and no other repository changes. \
               Without one, every command fails and creates nothing. closed: where the nearest repository is not accessible, commands fail and do not use one farther up. Non-trivial: a command run away from the root.",
        assumptions: vec!["a folder of the given name is a repository of snapcd"],
        parts: vec![Box::new(part("places", 320, 5000, cases, run)), Box::new(part("closed", 300, 2000, closed_cases, closed))],
    }
}
