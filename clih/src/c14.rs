//! C14: excluded paths and the repository folder are left out everywhere.
use crate::{cli::*, db, excl::*, fmt, report, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    pats: Vec<Pat>,
    place: u8,
    sub: u16,
    edits: Vec<Edit>,
    late: bool,
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    (
        tree_with(content(), name_pool(), 3, 5),
        prop_oneof![1 => Just(vec![]), 6 => pats(4)],
        0u8..10,
        any::<u16>(),
        vec(edit(content()), 0..5),
        any::<bool>(),
    )
        .prop_map(|(tree, pats, place, sub, edits, late)| Case { tree, pats, place, sub, edits, late })
        .boxed()
}

struct Place {
    /// Value of -d, if any
    arg: Option<String>,
    /// The folder, relative to the root if below it
    rel: Option<String>,
    folder: PathBuf,
    /// Working directory of the repository (parent of the folder), relative to the root
    repo: Option<String>,
}

fn place(n: u8, root: &Path, base: &Path) -> Place {
    let below = |arg: &str, rel: &str| Place {
        arg: Some(arg.into()),
        rel: Some(rel.into()),
        folder: root.join(rel),
        repo: Some(rel.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default()),
    };
    let abs = |rel: &str| below(root.join(rel).to_str().unwrap(), rel);
    match n {
        0 | 1 => Place { arg: None, rel: Some(".snapcd".into()), folder: root.join(".snapcd"), repo: Some(String::new()) },
        2 => below("db", "db"),
        3 => below(".snap cd", ".snap cd"),
        4 => below("abc/db", "abc/db"),
        5 => below("./db", "db"),
        6 => abs("store"),
        7 => abs("src/a/db"),
        8 => below("abc/../db2", "db2"),
        _ => {
            let f = base.join("elsewhere/db");
            Place { arg: Some(f.to_str().unwrap().into()), rel: None, folder: f, repo: None }
        }
    }
}

/// Without the folder itself, but with the directories leading to it.
fn with_folder(mut m: M, rel: &Option<String>) -> M {
    if let Some(r) = rel {
        m.remove(r);
        let mut at = String::new();
        if let Some((dir, _)) = r.rsplit_once('/') {
            for c in dir.split('/') {
                at = join(&at, c);
                if !m.get(&at).map(|x| x.is_dir()).unwrap_or(false) {
                    m.put(&at, M::empty());
                }
            }
        }
    }
    m
}

fn stored(dbf: &Path, key: &str) -> Result<M, Fail> {
    let d = db::load(dbf)?;
    let objs = match fmt::fsck(&d) {
        Ok(o) => o,
        Err(e) => viol!("{}", e),
    };
    let k = match fmt::parse_key(key) {
        Some(k) => k,
        None => viol!("no key: {:?}", key),
    };
    match fmt::read_model(&objs, &k) {
        Ok(m) => Ok(m),
        Err(e) => viol!("{}", e),
    }
}

fn commit_tree(dbf: &Path) -> Result<M, Fail> {
    let d = db::load(dbf)?;
    let k = match d.log("master", None).first() {
        Some(k) => fmt::parse_key(k).unwrap(),
        None => viol!("commit made no ref entry"),
    };
    let o = match d.objects.get(&fmt::dbkey(&k)).map(|b| fmt::decode_object(b)) {
        Some(Ok(o)) => o,
        x => viol!("commit object: {:?}", x),
    };
    stored(dbf, &fmt::user_key(&o.keys[0]))
}

/// What a walk that starts at `start` (relative to the root) leaves out.
fn excl(c: &Case, paths: &[String], start: &str, printed: &str, rel: &Option<String>) -> (Vec<String>, Excl) {
    let dbrel = rel.as_ref().and_then(|r| if start.is_empty() { Some(r.clone()) } else { r.strip_prefix(&format!("{}/", start)).map(|x| x.to_string()) });
    let below: Vec<String> = if start.is_empty() {
        paths.to_vec()
    } else {
        paths.iter().filter_map(|x| x.strip_prefix(&format!("{}/", start)).map(|x| x.to_string())).collect()
    };
    resolve(&c.pats, &below, printed, dbrel)
}

fn judge(o: &O, tree: &M, work: &M, x: &Excl, has_head: bool, what: &str) -> Result<(), Fail> {
    if !o.ok() {
        viol!("{} fails: {}", what, o.brief());
    }
    let (_, got) = match report::parse(&o.text()) {
        Ok(r) => r,
        Err(e) => viol!("{}: {}", what, e),
    };
    let _ = has_head;
    let w = x.strip(work);
    // A stored path that is excluded now may be called deleted, but nothing else.
    let (a, b) = (report::expected(tree, &w), report::expected(&x.strip(tree), &w));
    if got != a && got != b {
        viol!("{} lists {:?}\nexpected {:?}\nor {:?}", what, got, a, b);
    }
    Ok(())
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut r = Repo::at(env, &base);
    let mut out = Out::default();
    std::fs::create_dir(base.join("elsewhere"))?;
    let pl = place(c.place, &r.root, &base);
    let mut work = with_folder(model(&c.tree), &pl.rel);
    if c.place == 8 {
        // The path goes through this directory.
        if !work.get("abc").map(|x| x.is_dir()).unwrap_or(false) {
            work.put("abc", M::empty());
        }
    }
    if let Some(a) = &pl.arg {
        r.global = vec!["-d".into(), a.clone()];
    }
    // The tree is there before the repository, or it comes later.
    if !c.late {
        write_tree(&r.root, &work)?;
    } else if c.place == 8 {
        std::fs::create_dir(r.root.join("abc"))?;
    }
    r.must(&["init"])?;
    if c.late {
        write_tree(&r.root, &work)?;
    }
    let dbf = pl.folder.join("snapcd.db");
    if !dbf.is_file() {
        viol!("init made no repository at {:?}", pl.folder);
    }
    let paths: Vec<String> = work.paths().into_iter().map(|x| x.0).collect();
    let run = |cmd: &[&str], x: &[String]| -> Result<O, Fail> {
        let mut a: Vec<String> = cmd.iter().map(|s| s.to_string()).collect();
        // Options may stand before the command or after it
        if c.sub % 2 == 0 {
            a.extend(x.iter().cloned());
        } else {
            a = x.iter().cloned().chain(a).collect();
        }
        r.run(&a)
    };

    // insert, with the path written in several ways
    let absroot = r.root.to_str().unwrap().to_string();
    let wname = r.root.file_name().unwrap().to_str().unwrap().to_string();
    let mut ways: Vec<(String, String, String)> = vec![
        (".".into(), "".into(), "".into()),
        ("./".into(), "".into(), "".into()),
        (absroot.clone(), "".into(), format!("{}/", absroot)),
        (format!("../{}", wname), "".into(), format!("../{}/", wname)),
        ("..".into(), "..".into(), "../".into()),
    ];
    let dirs: Vec<String> = work.dirs().into_iter().filter(|d| !d.starts_with('-')).collect();
    if let Some(d) = pick(&dirs, c.sub) {
        ways.push((d.clone(), d.clone(), format!("{}/", d)));
        ways.push((format!("./{}", d), d.clone(), format!("{}/", d)));
        ways.push((format!("{}/", d), d.clone(), format!("{}/", d)));
        ways.push((format!("{}/{}", absroot, d), d.clone(), format!("{}/{}/", absroot, d)));
    }
    for (i, (arg, start, printed)) in ways.iter().enumerate() {
        if (c.sub as usize / 2 + i) % 2 == 1 {
            continue;
        }
        let (m, x) = if start == ".." {
            // The parent directory holds the home, other places and the root itself
            std::fs::remove_dir_all(&r.home)?;
            std::fs::create_dir(&r.home)?;
            let mut m = M::empty();
            let mut w = work.clone();
            if let Some(rel) = &pl.rel {
                w = with_folder(w, &Some(rel.clone()));
            }
            m.put(&wname, w);
            m.put("h", M::empty());
            m.put("elsewhere", M::empty());
            let dbrel = match &pl.rel {
                Some(x) => join(&wname, x),
                None => "elsewhere/db".into(),
            };
            let (args, x) = resolve(&c.pats, &m.paths().into_iter().map(|x| x.0).collect::<Vec<_>>(), printed, Some(dbrel));
            // The cache lies in the home, which therefore is somewhere else for this.
            let mut r2 = r.clone();
            r2.home = env.dir.join("home");
            std::fs::create_dir_all(&r2.home)?;
            let mut a: Vec<String> = vec!["insert".into(), "--".into(), arg.clone()];
            a = args.into_iter().chain(a).collect();
            let o = r2.run(&a)?;
            check_insert(&o, &dbf, &x.strip(&m), &a)?;
            continue;
        } else {
            let m = if start.is_empty() { work.clone() } else { work.get(start).unwrap().clone() };
            (m, excl(c, &paths, start, printed, &pl.rel))
        };
        let (args, x) = x;
        let o = run(&["insert", arg], &args)?;
        let want = x.strip(&m);
        out.nontrivial |= want != m && want != M::empty();
        out.label(want != m, "insert-excludes");
        check_insert(&o, &dbf, &want, &[arg.clone(), format!("{:?}", args)])?;
    }

    // commit of the whole working directory, and status and compare after changes
    if let Some(rp) = &pl.repo {
        let start = rp.clone();
        // How the path of the working directory is put together from the argument
        let printed = if c.place == 8 { format!("{}/abc/../", absroot) } else { format!("{}/", p(&r.root, &start).display()) };
        let m = if start.is_empty() { work.clone() } else { work.get(&start).unwrap().clone() };
        let (args, x) = excl(c, &paths, &start, &printed, &pl.rel);
        let o = run(&["commit", "-m", "first"], &args)?;
        if !o.ok() {
            viol!("commit {:?} fails: {}", args, o.brief());
        }
        let got = commit_tree(&dbf)?;
        let want = x.strip(&m);
        if got != want {
            viol!("commit with {:?} stored {:?}\nexpected {:?}", args, got, want);
        }
        out.label(want != m, "commit-excludes");
        // With the same patterns nothing differs.
        for cmd in &[&["status"][..], &["compare"][..]] {
            judge(&run(cmd, &args)?, &got, &m, &x, true, &format!("{:?} {:?}", cmd, args))?;
        }
        // Without patterns what was left out is new.
        let none = Excl { pats: vec![], base: String::new(), db: x.db.clone() };
        judge(&run(&["status"], &[])?, &got, &m, &none, true, "status without patterns")?;
        let mut after = m.clone();
        let dbrel = x.db.clone();
        for e in &c.edits {
            apply_edit(&mut after, e);
        }
        after = with_folder(after, &dbrel);
        if c.place == 8 && !after.get("abc").map(|x| x.is_dir()).unwrap_or(false) {
            after.put("abc", M::empty());
        }
        let at = p(&r.root, &start);
        sync_around(&at, &after, &dbrel)?;
        let w = judge(&run(&["status"], &args)?, &got, &after, &x, true, &format!("status {:?} after edits", args));
        w?;
        judge(&run(&["compare"], &args)?, &got, &after, &x, true, &format!("compare {:?} after edits", args))?;
        judge(&run(&["compare"], &[])?, &got, &after, &none, true, "compare after edits")?;
        let clean = report::expected(&got, &x.strip(&after)).is_empty();
        let clean2 = report::expected(&x.strip(&got), &x.strip(&after)).is_empty();
        let o = run(&["checkout-head", "other"], &args)?;
        if clean == clean2 && o.text().starts_with("Ok") != clean {
            viol!("checkout-head {:?} with clean = {}: {}", args, clean, o.brief());
        }
        if o.text().starts_with("Ok") {
            r.must(&["debug", "set-head", "master"])?;
        }
        // A commit of a part, given by path
        let all: Vec<String> = {
            let mut v = vec![String::new()];
            v.extend(after.dirs());
            v
        };
        if let Some(d) = pick(&all, c.sub.wrapping_mul(31)) {
            let d0 = if d.is_empty() { start.clone() } else { join(&start, &d) };
            let (arg, printed) = match c.sub / 4 % 3 {
                0 if d0.is_empty() => (".".to_string(), String::new()),
                0 => (format!("./{}", d0), format!("{}/", d0)),
                1 if !d0.is_empty() => (d0.clone(), format!("{}/", d0)),
                _ => (join(&absroot, &d0).trim_end_matches('/').to_string(), format!("{}/", join(&absroot, &d0).trim_end_matches('/'))),
            };
            let sub = if d.is_empty() { after.clone() } else { after.get(&d).unwrap().clone() };
            let ps: Vec<String> = sub.paths().into_iter().map(|x| x.0).collect();
            let dbrel = match &x.db {
                Some(b) if d.is_empty() => Some(b.clone()),
                Some(b) => b.strip_prefix(&format!("{}/", d)).map(|x| x.to_string()),
                None => None,
            };
            let (args, x) = resolve(&c.pats, &ps, &printed, dbrel);
            let o = run(&["compare", &format!("--path={}", arg)], &args)?;
            judge(&o, &got, &sub, &x, true, &format!("compare --path={} {:?}", arg, args))?;
            let o = run(&["commit", "-m", "second", &format!("--path={}", arg)], &args)?;
            if !o.ok() {
                viol!("commit --path={} {:?} fails: {}", arg, args, o.brief());
            }
            let got = commit_tree(&dbf)?;
            if got != x.strip(&sub) {
                viol!("commit --path={} with {:?} stored {:?}\nexpected {:?}", arg, args, got, x.strip(&sub));
            }
        }
    }
    out.label(c.place > 1, "folder-elsewhere");
    Ok(out)
}

// ---- What is left out is not even looked at ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Poison {
    tree: Node,
    pats: Vec<Pat>,
    kinds: Vec<u8>,
    edits: Vec<Edit>,
}

const POISONS: &[&str] = &["dangling link", "link to itself", "link to a parent", "FIFO", "unreadable file", "unreadable directory", "unstorable content", "link out"];

fn put_poison(at: &Path, kind: u8) -> Result<(), Fail> {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let fifo = |q: PathBuf| -> Result<(), Fail> {
        let f = std::ffi::CString::new(q.to_str().unwrap()).unwrap();
        if unsafe { libc::mkfifo(f.as_ptr(), 0o600) } != 0 {
            return Err(std::io::Error::last_os_error().into());
        }
        Ok(())
    };
    let shut = |q: &Path| std::fs::set_permissions(q, std::fs::Permissions::from_mode(0));
    match kind as usize % POISONS.len() {
        0 => symlink("nowhere/at/all", at)?,
        1 => symlink(at.file_name().unwrap(), at)?,
        2 => symlink("..", at)?,
        3 => fifo(at.to_path_buf())?,
        4 => {
            std::fs::write(at, "secret")?;
            shut(at)?;
        }
        5 => {
            std::fs::create_dir(at)?;
            std::fs::write(at.join("f"), "secret")?;
            shut(at)?;
        }
        6 => {
            use std::os::unix::ffi::OsStrExt;
            std::fs::create_dir(at)?;
            std::fs::write(at.join(std::ffi::OsStr::from_bytes(b"\xff\xfe")), "x")?;
            fifo(at.join("fifo"))?;
            symlink("loop", at.join("loop"))?;
        }
        _ => symlink("/proc/self/environ", at)?,
    }
    Ok(())
}

fn clear(at: &Path) -> Result<(), Fail> {
    use std::os::unix::fs::PermissionsExt;
    if let Ok(md) = std::fs::symlink_metadata(at) {
        if md.is_dir() {
            std::fs::set_permissions(at, std::fs::Permissions::from_mode(0o755))?;
            std::fs::remove_dir_all(at)?;
        } else {
            std::fs::remove_file(at)?;
        }
    }
    Ok(())
}

fn poison(env: &Env, c: &Poison) -> Res {
    let base = env.fresh();
    let r = Repo::at(env, &base);
    let mut out = Out::default();
    let mut work = model(&c.tree);
    work.dir_mut().remove(".snapcd");
    write_tree(&r.root, &work)?;
    r.must(&["init"])?;
    let dbf = r.db();
    let db = Some(".snapcd".to_string());
    let absroot = format!("{}/", r.root.to_str().unwrap());
    let mut last: Option<M> = None;
    for (n, cmd) in ["insert", "commit", "status", "compare", "commit", "insert", "status"].iter().enumerate() {
        if n == 4 {
            for e in &c.edits {
                apply_edit(&mut work, e);
            }
            work.dir_mut().remove(".snapcd");
            sync_tree(&r.root, &work, &[".snapcd"])?;
        }
        let paths: Vec<String> = work.paths().into_iter().map(|x| x.0).collect();
        let (arg, printed) = match (*cmd, n) {
            ("insert", 0) => (".", ""),
            ("insert", _) => (absroot.trim_end_matches('/'), &absroot[..]),
            _ => ("", &absroot[..]),
        };
        let (xs, x) = resolve(&c.pats, &paths, printed, db.clone());
        let tops: Vec<String> = x.tops(&work).into_iter().filter(|t| t != ".snapcd").collect();
        for (i, t) in tops.iter().enumerate() {
            let at = p(&r.root, t);
            clear(&at)?;
            let k = c.kinds[(i + n) % c.kinds.len()];
            put_poison(&at, k)?;
            out.labels.push(POISONS[k as usize % POISONS.len()].into());
        }
        out.nontrivial |= !tops.is_empty();
        let mut a: Vec<String> = match *cmd {
            "insert" => vec!["insert".into(), arg.into()],
            "commit" => vec!["commit".into(), "-m".into(), "m".into()],
            _ => vec![cmd.to_string()],
        };
        a.extend(xs.iter().cloned());
        let o = r.run(&a);
        for t in &tops {
            clear(&p(&r.root, t))?;
        }
        let o = o?;
        let want = x.strip(&work);
        let what = format!("{:?} with {:?} of kinds {:?} in the way", a, tops, c.kinds);
        match *cmd {
            "insert" => check_insert(&o, &dbf, &want, &[what])?,
            "commit" => {
                if !o.ok() {
                    viol!("{} fails: {}", what, o.brief());
                }
                let got = commit_tree(&dbf)?;
                if got != want {
                    viol!("{} stored {:?}\nexpected {:?}", what, got, want);
                }
                last = Some(got);
            }
            _ => judge(&o, last.as_ref().unwrap(), &work, &x, true, &what)?,
        }
        // As it was
        sync_tree(&r.root, &work, &[".snapcd"])?;
    }
    Ok(out)
}

fn poison_cases(_: Tier) -> BoxedStrategy<Poison> {
    (tree_with(content(), name_pool(), 3, 5), pats(4), vec(any::<u8>(), 1..4), vec(edit(content()), 0..4))
        .prop_map(|(tree, pats, kinds, edits)| Poison { tree, pats, kinds, edits })
        .boxed()
}

fn check_insert(o: &O, dbf: &Path, want: &M, what: &[String]) -> Result<(), Fail> {
    if !o.ok() {
        viol!("insert {:?} fails: {}", what, o.brief());
    }
    let k = key_of_insert(o)?;
    let got = stored(dbf, &k)?;
    if got != *want {
        viol!("insert {:?} stored {:?}\nexpected {:?}", what, got, want);
    }
    Ok(())
}

/// Names that lead into the repository folder by links.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Aliases {
    tree: Node,
    edits: Vec<Edit>,
    /// (directory, what it leads to)
    links: Vec<(u16, u8)>,
    /// The folder itself is a link
    aside: bool,
    /// Where commands run
    cwd: u16,
}

fn alias_cases(_: Tier) -> BoxedStrategy<Aliases> {
    (tree_with(content(), name_pool(), 3, 5), vec(edit(content()), 0..4), vec((any::<u16>(), 0u8..7), 1..5), any::<bool>(), any::<u16>())
        .prop_map(|(tree, edits, links, aside, cwd)| Aliases { tree, edits, links, aside, cwd })
        .boxed()
}

fn aliases(env: &Env, c: &Aliases) -> Res {
    use std::os::unix::fs::symlink;
    let base = env.fresh();
    let r = Repo::at(env, &base);
    let mut out = Out::default();
    let mut work = model(&c.tree);
    work.dir_mut().remove(".snapcd");
    write_tree(&r.root, &work)?;
    r.must(&["init"])?;
    let dbf = r.db();
    let folder = r.root.join(".snapcd");
    let store = base.join("store");
    if c.aside {
        std::fs::rename(&folder, &store)?;
        symlink(&store, &folder)?;
    }
    let mut last: Option<M> = None;
    for (n, cmd) in ["insert", "commit", "status", "commit", "compare", "insert", "status", "checkout-head"].iter().enumerate() {
        if n == 2 || n == 4 {
            for e in &c.edits[if n == 2 { 0..c.edits.len() / 2 } else { c.edits.len() / 2..c.edits.len() }] {
                apply_edit(&mut work, e);
            }
            work.dir_mut().remove(".snapcd");
        }
        if n == 7 {
            work = last.clone().unwrap();
        }
        sync_tree(&r.root, &work, &[".snapcd"])?;
        let dirs: Vec<String> = std::iter::once(String::new()).chain(work.dirs()).collect();
        let mut put = vec![];
        for (i, (d, to)) in c.links.iter().enumerate() {
            let d = pick(&dirs, *d).unwrap();
            let at = p(&r.root, &d).join(format!("~alias~{}", i));
            let up = "../".repeat(if d.is_empty() { 0 } else { d.matches('/').count() + 1 });
            match to {
                0 => symlink(format!("{}.snapcd", up), &at)?,
                1 => symlink(&folder, &at)?,
                2 => symlink(format!("{}.snapcd/snapcd.db", up), &at)?,
                3 => symlink(dbf.canonicalize()?, &at)?,
                4 => symlink(folder.canonicalize()?, &at)?,
                5 if !put.is_empty() => symlink(put.last().unwrap(), &at)?,
                _ => symlink(format!("{}.snapcd/../.snapcd/.", if c.aside { "/does/not/matter" } else { &up }), &at)?,
            }
            // A link to nothing has to be read, or to fail.
            if std::fs::metadata(&at).is_err() {
                std::fs::remove_file(&at)?;
                continue;
            }
            put.push(at);
        }
        out.nontrivial |= !put.is_empty();
        out.label(c.aside, "folder is a link");
        let cwd = p(&r.root, &pick(&dirs, c.cwd).unwrap());
        let (at, a): (&Path, Vec<&str>) = match (*cmd, n) {
            ("insert", 0) => (&r.root, vec!["insert", "."]),
            ("insert", _) => (&cwd, vec!["insert", r.root.to_str().unwrap()]),
            ("commit", _) => (&cwd, vec!["commit", "-m", "m"]),
            ("checkout-head", _) => (&cwd, vec!["checkout-head", "other"]),
            _ => (&cwd, vec![*cmd]),
        };
        // Where the directory is gone, or another repository is nearer
        let own = at.is_dir() && at.ancestors().take_while(|x| *x != r.root).all(|x| std::fs::symlink_metadata(x.join(".snapcd")).is_err());
        let at = if own { at } else { &r.root };
        let o = r.run_in(at, &a)?;
        let what = format!("{:?} in {:?} with {:?} leading to the repository folder", a, at, put);
        for q in &put {
            std::fs::remove_file(q)?;
        }
        match *cmd {
            "insert" => check_insert(&o, &dbf, &work, &[what])?,
            "commit" => {
                if !o.ok() {
                    viol!("{} fails: {}", what, o.brief());
                }
                let got = commit_tree(&dbf)?;
                if got != work {
                    viol!("{} stored {:?}\nexpected {:?}", what, got, work);
                }
                last = Some(got);
            }
            "checkout-head" => {
                if !o.ok() || !o.text().contains("new head") {
                    viol!("{} refuses a clean directory: {}", what, o.brief());
                }
            }
            _ => {
                let x = resolve(&[], &[], "", Some(".snapcd".to_string())).1;
                judge(&o, last.as_ref().unwrap(), &work, &x, *cmd == "status", &what)?
            }
        }
    }
    Ok(out)
}

/// Makes the directory equal to the model, leaving the folder (which may lie deep) alone.
pub fn sync_around(at: &Path, m: &M, folder: &Option<String>) -> Result<(), Fail> {
    match folder {
        None => sync_tree(at, m, &[]),
        Some(f) => {
            let hold = at.with_file_name("hold~folder");
            std::fs::rename(at.join(f), &hold)?;
            let r = sync_tree(at, m, &[]);
            std::fs::create_dir_all(at.join(f).parent().unwrap())?;
            std::fs::rename(&hold, at.join(f))?;
            r
        }
    }
}

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        rule: "Generated trees, exclude patterns made from their paths (exact, anywhere, prefix, suffix, infix, ?, classes, \
               alternatives, ** forms) and placements of the database folder. insert with its path written in several ways, \
               commit, commit of a part, status, compare and checkout-head against a filter of the model with a matcher of \
               its own; checkout inside its directory. not looked at: excluded entries are dangling or looping links, FIFOs, unreadable or \
               unstorable things, which must make no difference; aliases: links that lead into the database folder. Non-trivial: the patterns leave out a part but not all.",
        assumptions: vec![
            "patterns are matched against paths as printed by the walk, as before",
            "a stored path that is excluded now may be listed as deleted",
        ],
        parts: vec![
            Box::new(part("left out", 500, 9000, cases, run)),
            Box::new(part("not looked at", 300, 5000, poison_cases, poison)),
            Box::new(part("aliases", 200, 3000, alias_cases, aliases)),
            Box::new(part("checkout", 250, 4000, |_| crate::c19::cases(true), crate::c19::run_in)),
        ],
    }
}
