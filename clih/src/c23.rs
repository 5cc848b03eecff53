//! C23: show, log and the inspection commands tell the truth.
use crate::{c11, cli::*, db, fmt, hist::*, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    cmds: Vec<Cmd>,
    looks: Vec<u16>,
}

fn text() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => "([a-c]{0,2}\n){0,12}[a-c]{0,2}".prop_map(|s| vec![Seg::Text(s)]),
        3 => small_bytes(),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
        1 => "[ab \\-+@\r]{0,8}\n?".prop_map(|s| vec![Seg::Text(s)]),
    ]
    .boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    let r = || prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => 0u8..REFS.len() as u8];
    let cmd = prop_oneof![
        6 => (vec(edit(text()), 0..4), crate::c04::message(), prop::option::weighted(0.4, r())).prop_map(|(e, msg, r)| vec![Cmd::Edit(e), Cmd::Commit { msg, r, path: None }]),
        2 => (any::<u16>(), vec(any::<u16>(), 0..4)).prop_map(|(t, parents)| vec![Cmd::CommitTree { t, parents }]),
        2 => (any::<u16>(), prop::option::weighted(0.7, r())).prop_map(|(c, r)| vec![Cmd::RefUpdate { c, r }]),
        1 => r().prop_map(|r| vec![Cmd::SetHead(r)]),
        1 => any::<u16>().prop_map(|n| vec![Cmd::Insert(n)]),
    ];
    (tree_with(text(), name(), 2, 3), vec(cmd, 2..8), vec(any::<u16>(), 6))
        .prop_map(|(tree, cmds, looks)| Case { tree, cmds: cmds.into_iter().flatten().collect(), looks })
        .boxed()
}

fn binary(old: &M, new: &M) -> bool {
    c11::changes(old, new)
        .values()
        .any(|(a, b)| [a, b].iter().any(|x| x.as_ref().map(|v| std::str::from_utf8(v).is_err()).unwrap_or(false)))
}

/// Stat lines of one commit may come in any order.
fn norm(s: &str) -> Vec<Vec<String>> {
    s.split("\n\n")
        .map(|b| {
            let mut v: Vec<String> = b.split('\n').map(|x| x.to_string()).collect();
            v.sort();
            v
        })
        .collect()
}

/// Text printed for a string by Rust's debug format, undone. The names used have no exotic escapes.
fn quoted(p: &str) -> String {
    format!("{:?}", p)
}

fn key_debug(k: &fmt::K) -> String {
    format!("Blake3B({:?})", k)
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut h = Hist::new(env, &base, &c.tree)?;
    let mut out = Out::default();
    for cmd in &c.cmds {
        if let Some(st) = h.exec(cmd)? {
            match &st.o {
                Some(o) if !o.ok() => viol!("{:?} fails: {}", st.args, o.brief()),
                _ => {}
            }
            h.learn(cmd, &st)?;
        }
    }
    let objs = match fmt::fsck(&h.db) {
        Ok(o) => o,
        Err(e) => viol!("{}", e),
    };
    let find = |k: &str| h.commits.iter().find(|x| x.key == k);
    let r = &h.repo;
    let mut checked = vec![];
    let mut ks: Vec<(Option<String>, String)> = c.looks.iter().take(3).filter_map(|n| pick(&h.commits, *n)).map(|x| (Some(x.key.clone()), x.key)).collect();
    let head = h.newest(&h.head(), None);
    if let Some(k) = &head {
        ks.push((None, k.clone()));
    }
    for (arg, k) in ks {
        if find(&k).is_none() || checked.contains(&(arg.clone(), k.clone())) {
            continue;
        }
        checked.push((arg.clone(), k.clone()));
        // A commit of a single file has no paths to show.
        let mut at = find(&k);
        let mut plain = true;
        while let Some(cm) = at {
            plain &= cm.tree.is_dir();
            at = cm.parents.first().and_then(|p| find(p));
        }
        if !plain {
            continue;
        }
        // log
        let mut want = String::new();
        let mut at = find(&k);
        let mut n = 0;
        while let Some(cm) = at {
            let parent = cm.parents.first().and_then(|p| find(p));
            let old = parent.map(|p| p.tree.clone()).unwrap_or_else(M::empty);
            want += &format!("commit: {}\n\n{}\n\n", cm.key, cm.msg);
            for l in c11::stat_lines(&old, &cm.tree) {
                want += &l;
                want.push('\n');
            }
            want += "\n\n";
            n += 1;
            out.label(cm.parents.len() > 1, "merge-in-log");
            at = parent;
        }
        let mut a = vec!["log".to_string()];
        a.extend(arg.clone());
        let o = r.run(&a)?;
        if !o.ok() || norm(&o.text()) != norm(&want) {
            viol!("log {:?} prints {}\nexpected {:?}", arg, o.brief(), want);
        }
        out.nontrivial |= n >= 2;
        // show
        let cm = find(&k).unwrap();
        let old = cm.parents.first().and_then(|p| find(p)).map(|p| p.tree.clone()).unwrap_or_else(M::empty);
        let mut a = vec!["show".to_string()];
        a.extend(arg.clone());
        let o = r.run(&a)?;
        if binary(&old, &cm.tree) {
            if o.ok() {
                viol!("show of a commit with a file that is not text succeeds: {}", o.brief());
            }
        } else {
            let hd = format!("commit: {}\n\n{}\n\n", k, cm.msg);
            if !o.ok() || !o.text().starts_with(&hd) {
                viol!("show {:?} prints {}, expected {:?} first", arg, o.brief(), hd);
            }
            if let Err(e) = c11::judge_patch(&o.text()[hd.len()..], &old, &cm.tree) {
                viol!("show {:?}: {}", arg, e);
            }
        }
        pretty(r, &objs, &k)?;
    }
    if head.is_none() {
        for a in &["log", "show"] {
            let o = r.run(&[a])?;
            if o.ok() {
                viol!("{} without any commit reports success: {}", a, o.brief());
            }
        }
    }
    // trees
    for (i, n) in c.looks.iter().enumerate().skip(3) {
        let (k, m) = match pick(&h.trees, *n) {
            Some(x) => x,
            None => continue,
        };
        let kk = fmt::parse_key(&k).unwrap();
        let o = r.run(&["debug", "walk-tree", &k])?;
        let mut want: Vec<String> = vec![];
        let mut keys: BTreeMap<String, fmt::K> = BTreeMap::new();
        collect(&objs, &kk, "", &mut keys, &mut |p, k, dir| {
            if !(dir && p.is_empty()) {
                want.push(format!("({}, ({}, {}))", quoted(p), key_debug(k), dir));
            }
        });
        let mut got = o.lines();
        got.sort();
        want.sort();
        if !o.ok() || got != want {
            viol!("walk-tree {} prints {:?}\nexpected {:?}", k, got, want);
        }
        if want.len() != if m.is_dir() { m.paths().len() } else { 1 } {
            viol!("stored tree {} has {} paths, expected {:?}", k, want.len(), m);
        }
        // one of its paths
        let ps: Vec<(String, fmt::K)> = keys.into_iter().collect();
        if let Some((p, kk)) = pick(&ps, n.rotate_left(5)) {
            let k = fmt::user_key(&kk);
            let x = if p.is_empty() { Some(&m) } else { m.get(&p) };
            // By full key and by a prefix
            let arg = if i % 2 == 0 { k.clone() } else { prefix(&h.db, &k) };
            let o = r.run(&["show", &arg])?;
            match x {
                Some(M::F(b)) => {
                    if o.code != Some(0) || o.out != **b {
                        viol!("show of the file {} prints {}, expected {:?}", p, o.brief(), clip(&String::from_utf8_lossy(b), 500));
                    }
                    let ck = fmt::user_key(&objs[&kk].keys[0]);
                    let o = r.run(&["show", &ck])?;
                    if o.code != Some(0) || o.out != **b {
                        viol!("show of the content {} prints {}, expected {:?}", ck, o.brief(), clip(&String::from_utf8_lossy(b), 500));
                    }
                    pretty(r, &objs, &ck)?;
                    out.label(true, "show-file");
                }
                Some(M::D(_)) => {
                    if !o.ok() || o.text() != format!("tree: {}\n", k) {
                        viol!("show of the directory {} prints {}", k, o.brief());
                    }
                }
                None => viol!("path {:?} of the stored tree is not in {:?}", p, m),
            }
            pretty(r, &objs, &k)?;
        }
    }
    let dirs = h.work.dirs();
    let d = pick(&dirs, c.looks[5]).unwrap_or_else(|| ".".into());
    for d in &[".".to_string(), d] {
        let o = r.run(&["debug", "walk-fs-tree", "--", d])?;
        let m = read_tree(&r.root.join(d), &[])?;
        let mut want: Vec<String> = m.paths().iter().map(|(p, x)| format!("{}, {}", quoted(p), x.is_dir())).collect();
        let mut got = o.lines();
        got.sort();
        want.sort();
        if !o.ok() || got != want {
            viol!("walk-fs-tree {} prints {:?}\nexpected {:?}", d, got, want);
        }
    }
    let now = db::load(&r.db())?;
    if now != h.db {
        viol!("looking changed the repository: {}", h.db.diff(&now));
    }
    let w = read_tree(&r.root, &[".snapcd"])?;
    if w != h.work {
        viol!("looking changed the working directory: {:?} became {:?}", h.work, w);
    }
    Ok(out)
}

/// The shortest prefix that names only this key.
fn prefix(d: &db::Db, k: &str) -> String {
    let all: Vec<String> = d.objects.keys().map(|x| fmt::user_key_db(x)).collect();
    for n in 2..k.len() {
        if all.iter().filter(|x| x.starts_with(&k[..n])).count() == 1 {
            return k[..n].to_string();
        }
    }
    k.to_string()
}

fn collect(objs: &BTreeMap<fmt::K, fmt::Obj>, k: &fmt::K, at: &str, keys: &mut BTreeMap<String, fmt::K>, f: &mut dyn FnMut(&str, &fmt::K, bool)) {
    let o = &objs[k];
    let dir = o.objtype == "FSItemDir";
    f(at, k, dir);
    keys.insert(at.to_string(), *k);
    if dir {
        let item = fmt::decode_item(&o.data).unwrap();
        for (n, c) in item.names.iter().zip(&o.keys) {
            collect(objs, c, &join(at, n), keys, f);
        }
    }
}

fn pretty(r: &Repo, objs: &BTreeMap<fmt::K, fmt::Obj>, k: &str) -> Result<(), Fail> {
    let o = r.run(&["debug", "pretty-print", k])?;
    let ob = &objs[&fmt::parse_key(k).unwrap()];
    let ls = o.lines();
    let part = |a: &str, b: &str| -> Vec<String> { ls.iter().skip_while(|l| *l != a).skip(1).take_while(|l| *l != b).cloned().collect() };
    let keys: Vec<String> = part("--keys--", "-/keys--").into_iter().filter(|l| fmt::parse_key(l).is_some()).collect();
    let want: Vec<String> = ob.keys.iter().map(fmt::user_key).collect();
    let hex: String = part("--data--", "-/data--").concat();
    let want_hex: String = ob.data.iter().map(|b| format!("{:02x}", b)).collect();
    if !o.ok() || ls.first().map(|x| &x[..]) != Some(&format!("--type: {}--", ob.objtype)[..]) || keys != want || hex != want_hex {
        viol!("pretty-print of {} ({}) prints {}", k, ob.objtype, o.brief());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    tree: Node,
    /// An edit and a message, used again and again
    steps: Vec<(Edit, String)>,
    n: u16,
    seed: u32,
}

fn long_cases(_: Tier) -> BoxedStrategy<LongCase> {
    let t = || prop_oneof![4 => "([a-c]{0,2}\n){0,8}[a-c]{0,2}".prop_map(|s| vec![Seg::Text(s)]), 1 => small_bytes()].boxed();
    (tree_with(t(), name(), 2, 3), vec((edit(t()), crate::c04::message()), 1..6), 10u16..260, any::<u32>())
        .prop_map(|(tree, steps, n, seed)| LongCase { tree, steps, n, seed })
        .boxed()
}

/// A long history written by an independent implementation, with merges of older commits.
fn run_long(env: &Env, c: &LongCase) -> Res {
    let base = env.fresh();
    let r = Repo::at(env, &base);
    std::fs::create_dir(r.root.join(".snapcd"))?;
    let mut objs = fmt::Objs::new();
    let mut work = model(&c.tree);
    let mut made: Vec<(fmt::K, M, Option<usize>, String)> = vec![];
    let mut refs = vec![];
    let mut s = c.seed as u64;
    let mut out = Out::default();
    for i in 0..c.n as usize {
        let (e, msg) = &c.steps[i % c.steps.len()];
        apply_edit(&mut work, e);
        if work.paths().len() > 40 || work.files().iter().map(|f| f.1.len()).sum::<usize>() > 40_000 {
            work = model(&c.tree);
        }
        let msg = if splitmix(&mut s) % 4 == 0 { clip(msg, 300) } else { format!("{} {}", i, clip(msg, 40)) };
        let t = fmt::put_tree(&mut objs, &work);
        let mut ps: Vec<usize> = if i > 0 { vec![i - 1] } else { vec![] };
        while i > 0 && splitmix(&mut s) % 12 == 0 {
            ps.push(splitmix(&mut s) as usize % i);
        }
        ps.sort_by_key(|p| made[*p].0);
        ps.dedup();
        let keys: Vec<fmt::K> = ps.iter().map(|p| made[*p].0).collect();
        let k = fmt::put_commit(&mut objs, t, &keys, &msg);
        out.label(keys.len() > 2, "merge");
        refs.push(("main".to_string(), None, k));
        made.push((k, work.clone(), ps.first().copied(), msg));
    }
    crate::c04::write_repo(&r.db(), &objs, "main", &refs)?;
    let before = db::load(&r.db())?;
    let mut want = String::new();
    let mut at = made.last();
    let mut n = 0;
    while let Some((k, tree, parent, msg)) = at {
        let old = parent.map(|p| made[p].1.clone()).unwrap_or_else(M::empty);
        want += &format!("commit: {}\n\n{}\n\n", fmt::user_key(k), msg);
        for l in c11::stat_lines(&old, tree) {
            want += &l;
            want.push('\n');
        }
        want += "\n\n";
        n += 1;
        at = parent.map(|p| &made[p]);
    }
    let o = r.run(&["log"])?;
    if !o.ok() || norm(&o.text()) != norm(&want) {
        viol!("log of {} commits prints {}\nexpected {}", n, o.brief(), clip(&want, 3000));
    }
    let o = r.run(&["ref", "log"])?;
    let want: Vec<String> = made.iter().enumerate().rev().map(|(i, x)| format!("{}: {}", i + 1, fmt::user_key(&x.0))).collect();
    if !o.ok() || o.lines()[1..] != want[..] {
        viol!("ref log of {} entries prints {}", made.len(), o.brief());
    }
    let now = db::load(&r.db())?;
    if now != before {
        viol!("looking changed the repository: {}", before.diff(&now));
    }
    out.nontrivial = n >= 20;
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C23",
        level: "exploration",
        rule: "Histories of edits, commits on several refs, merges made with commit-tree and ref updates; then log and show of \
               commits (given, and HEAD's), show of files, contents and directories by key and by prefix, walk-tree, walk-fs-tree and pretty-print \
               are compared with the model and the decoded database, which must not change. Non-trivial: a log with two or more commits.",
        assumptions: vec!["the first parent of a merge is the first one stored (the smallest key)"],
        parts: vec![
            Box::new(part("histories", 450, 8000, cases, run)),
            Box::new(part("long", 60, 800, long_cases, run_long).shrink(40)),
        ],
    }
}
