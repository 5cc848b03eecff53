//! C25: a repository answers the same wherever it lies and however the program is run.
use crate::{cli::*, db, hist::*, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    before: Vec<Cmd>,
    after: Vec<Cmd>,
    /// Where the copy goes
    place: u8,
    /// What it is run with, changing from command to command
    with: Vec<u8>,
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    // Mostly commands that store something first, and ones that look at it afterwards
    let look = (0u8..14, any::<u16>()).prop_map(|(k, s)| Cmd::Look(k, s));
    let after = prop_oneof![2 => cmd(), 3 => look];
    (history(8), vec(after, 2..9), 0u8..7, vec(0u8..22, 1..6))
        .prop_map(|((tree, before), after, place, with)| Case { tree, before, after, place, with })
        .boxed()
}

/// Copies a tree, last names first, so that they are listed in another order.
fn copy(from: &Path, to: &Path) -> Result<(), Fail> {
    if std::fs::symlink_metadata(from)?.is_dir() {
        std::fs::create_dir_all(to)?;
        let mut v = std::fs::read_dir(from)?.map(|e| e.map(|e| e.file_name())).collect::<Result<Vec<_>, _>>()?;
        v.sort();
        for n in v.into_iter().rev() {
            copy(&from.join(&n), &to.join(&n))?;
        }
    } else {
        std::fs::copy(from, to)?;
    }
    Ok(())
}

/// Without colors.
fn plain(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 27 && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1;
            }
            if b.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

fn environment(r: &mut Repo, how: u8, base: &Path) {
    let s = |a: &str, b: &str| (a.to_string(), b.to_string());
    r.global.clear();
    r.env.clear();
    r.umask = None;
    // Without a known terminal there is no log.
    r.env.push(s("TERM", "xterm"));
    match how {
        1 => r.global.push("-v".into()),
        2 => r.global.push("-vvv".into()),
        15 => r.global.push("-vv".into()),
        3 => r.global.push("-q".into()),
        4 => r.env.extend(vec![s("CLICOLOR_FORCE", "1"), s("NO_COLOR", "-")]),
        5 => r.env.extend(vec![s("LC_ALL", "tr_TR.UTF-8"), s("LANG", "tr_TR.UTF-8"), s("LANGUAGE", "tr")]),
        6 => r.env.extend(vec![s("LC_ALL", "C"), s("TERM", "dumb")]),
        7 => r.env.extend(vec![s("TZ", "Pacific/Kiritimati"), s("TERM", "xterm-256color")]),
        8 => r.env.extend(vec![s("RUST_LOG", "trace"), s("RUST_BACKTRACE", "full")]),
        9 => r.env.push(s("XDG_CACHE_HOME", base.join("cache").to_str().unwrap())),
        10 => r.env.extend(vec![s("USER", "someone"), s("LOGNAME", "someone"), s("HOSTNAME", "elsewhere"), s("EMAIL", "a@b.c")]),
        11 => r.env.extend(vec![s("COLUMNS", "20"), s("LINES", "5"), s("PAGER", "false"), s("EDITOR", "false")]),
        12 => r.global.extend(vec!["-d".into(), r.root.join(".snapcd").to_str().unwrap().to_string()]),
        13 => r.env.extend(vec![s("CLICOLOR", "0"), s("NO_COLOR", "-"), s("TERM", "vt100")]),
        14 => r.env.push(s("PATH", "")),
        16 => r.umask = Some(0o077),
        17 => r.umask = Some(0),
        18 => r.env.extend(vec![s("PWD", "/"), s("OLDPWD", "/tmp"), s("TMPDIR", base.to_str().unwrap()), s("SHELL", "/bin/false")]),
        19 => r.global.extend(vec!["-d".into(), ["./.snapcd", ".snapcd/", ".//.snapcd/."][r.root.as_os_str().len() % 3].into()]),
        20 => r.env.extend(vec![s("XDG_DATA_HOME", "/nowhere"), s("XDG_CONFIG_HOME", "/nowhere"), s("SNAPCD_DB", "/nowhere"), s("SNAPCD_DIR", "/nowhere")]),
        21 => r.global.extend(vec!["-vv".into(), "-q".into()]),
        _ => {}
    }
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut out = Out::default();
    let one = base.join("one");
    std::fs::create_dir(&one)?;
    let mut a = Hist::new(env, &one, &c.tree)?;
    for cmd in &c.before {
        if let Some(st) = a.exec(cmd)? {
            a.learn(cmd, &st)?;
        }
    }
    let two = match c.place {
        0 => base.join("two"),
        1 => base.join("two/x y/[z]"),
        2 => base.join("ä/-v"),
        3 => base.join(format!("two/{}", "d/".repeat(60))),
        4 => one.join("inner"),
        _ => base.join("two"),
    };
    copy(&a.repo.root, &two.join("w"))?;
    // The folder itself lies elsewhere.
    let folder = two.join("w/.snapcd");
    match c.place {
        5 => {
            std::fs::rename(&folder, two.join("store"))?;
            std::os::unix::fs::symlink("../store", &folder)?;
        }
        6 => {
            std::fs::create_dir(two.join("deep"))?;
            std::fs::rename(&folder, two.join("deep/.snapcd"))?;
            std::os::unix::fs::symlink(two.join("deep/.snapcd"), &folder)?;
        }
        _ => {}
    }
    std::fs::create_dir_all(two.join("h"))?;
    let mut b = Hist {
        repo: Repo { root: two.join("w"), home: two.join("h"), ..a.repo.clone() },
        base: two.clone(),
        work: a.work.clone(),
        db: a.db.clone(),
        trees: a.trees.clone(),
        commits: a.commits.clone(),
        step: a.step,
    };
    let mut looks = 0;
    for (i, cmd) in c.after.iter().enumerate() {
        let how = c.with[i % c.with.len()];
        environment(&mut b.repo, how, &two);
        let (x, y) = (a.exec(cmd)?, b.exec(cmd)?);
        let (x, y) = match (x, y) {
            (Some(x), Some(y)) => (x, y),
            _ => continue,
        };
        let (ox, oy) = (x.o.as_ref().unwrap(), y.o.as_ref().unwrap());
        let what = format!("{:?} in a copy at {:?}, run with {:?} {:?}", y.args, b.repo.root, b.repo.global, b.repo.env);
        if ox.ok() != oy.ok() {
            viol!("{}: {}\nin the original: {}", what, oy.brief(), ox.brief());
        }
        if ox.ok() {
            let text = |o: &O| {
                let t = plain(&o.out);
                // Listed as the file system does
                if y.args.iter().any(|x| x == "walk-fs-tree" || x == "walk-tree") {
                    let mut l: Vec<&[u8]> = t.split(|x| *x == b'\n').collect();
                    l.sort();
                    return l.join(&b'\n');
                }
                t
            };
            if text(ox) != text(oy) {
                viol!("{}: {}\nin the original: {}", what, oy.brief(), ox.brief());
            }
            out.label(how != 0, "run otherwise");
            out.label(c.place > 4, "folder is a link");
            looks += x.look.is_some() as usize;
        }
        if !a.db.same(&b.db) {
            viol!("{}: the repositories differ: {}", what, b.db.diff(&a.db));
        }
        if let (Some((p, _)), Some((q, _))) = (&x.fetched, &y.fetched) {
            if ox.ok() && read_tree(p, &[])? != read_tree(q, &[])? {
                viol!("{}: fetched {:?}\nin the original {:?}", what, read_tree(q, &[])?, read_tree(p, &[])?);
            }
        }
        a.learn(cmd, &x)?;
        b.learn(cmd, &y)?;
    }
    // Nothing of the one refers to the other.
    if c.place != 4 {
        std::fs::rename(&one, base.join("gone"))?;
        environment(&mut b.repo, 0, &two);
        for cm in &b.commits {
            let o = b.repo.run(&["debug", "pretty-print", &cm.key])?;
            if !o.ok() {
                viol!("without the original, commit {} cannot be read any more: {}", cm.key, o.brief());
            }
        }
        if !db::load(&b.repo.db())?.same(&a.db) {
            viol!("the copy changed when the original was moved");
        }
        out.label(true, "original moved away");
    }
    out.nontrivial = looks > 0 && !b.db.reflog.is_empty();
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C25",
        level: "exploration",
        rule: "A generated history; working directory and repository copied elsewhere (files made in another order, the folder possibly replaced by a link to it, other home without a \
               cache); then the same further commands on both, on the copy with varying environment (locale, time zone, colors, terminal, \
               log level, cache directory, umask, spelling of the folder). Compared after each: success, output apart from colors, the whole database, \
               fetched trees. Non-trivial: there are ref entries, and at least one looking command succeeded.",
        assumptions: vec!["the order of walk-fs-tree is that of the file system"],
        parts: vec![Box::new(part("copies", 600, 10000, cases, run))],
    }
}
