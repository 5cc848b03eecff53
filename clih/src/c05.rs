//! C05: the store is always sound. C06: nothing stored is ever lost. C13: refs, HEAD and commits.
use crate::{fmt, hist::*, runner::*, tree::*, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Node,
    cmds: Vec<Cmd>,
    /// Ref entries that are there from the start: how many, and a seed
    #[serde(default)]
    entries: (u16, u32),
}

fn cases(n: usize) -> BoxedStrategy<Case> {
    history(n).prop_map(|(tree, cmds)| Case { tree, cmds, entries: (0, 0) }).boxed()
}

fn labels(out: &mut Out, h: &Hist) {
    out.label(h.commits.len() >= 3, "3-commits");
    out.label(h.db.reflog.len() >= 3, "3-ref-entries");
    out.label(h.trees.len() >= 2, "2-trees");
}

// ---- C05 ----

fn run5(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut h = Hist::new(env, &base, &c.tree)?;
    let mut out = Out::default();
    for (i, cmd) in c.cmds.iter().enumerate() {
        let st = match h.exec(cmd)? {
            Some(s) => s,
            None => continue,
        };
        h.learn(cmd, &st)?;
        let objs = match fmt::fsck(&h.db) {
            Ok(o) => o,
            Err(e) => viol!("after step {} ({:?}): {}", i, st.args, e),
        };
        // Entries made by commands that take a commit or make one
        for (_, name, remote, k) in &h.db.reflog {
            let ok = fmt::from_dbkey(k).and_then(|k| objs.get(&k)).map(|o| o.objtype == "Commit").unwrap_or(false);
            if !ok {
                viol!("after step {} ({:?}): entry of ref {:?}/{:?} names {} which is no stored commit", i, st.args, remote, name, fmt::user_key_db(k));
            }
        }
        out.label(matches!(cmd, Cmd::Bad(..)), "failing-command");
        out.nontrivial |= st.prev.objects.len() != h.db.objects.len();
    }
    labels(&mut out, &h);
    Ok(out)
}

pub fn check5() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "Histories of edits and commands (insert, commit, ref and debug commands, looking commands, commands failing \
               half way). After every command an independent checker reads the whole database. Non-trivial: the history \
               stored objects.",
        assumptions: vec![],
        parts: vec![Box::new(part("histories", 1300, 20000, |_| cases(16), run5))],
    }
}

// ---- C06 ----

fn run6(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut h = Hist::new(env, &base, &c.tree)?;
    let mut out = Out::default();
    let mut n = 0;
    for (i, cmd) in c.cmds.iter().enumerate() {
        let st = match h.exec(cmd)? {
            Some(s) => s,
            None => continue,
        };
        n += 1;
        h.learn(cmd, &st)?;
        for (k, v) in &st.prev.objects {
            match h.db.objects.get(k) {
                None => viol!("step {} ({:?}) lost object {}", i, st.args, fmt::user_key_db(k)),
                Some(x) if x != v => viol!("step {} ({:?}) changed object {}", i, st.args, fmt::user_key_db(k)),
                _ => {}
            }
        }
        let before = st.prev.refs();
        if !h.db.refs().starts_with(&before) {
            viol!("step {} ({:?}) lost or changed a ref entry: {:?} became {:?}", i, st.args, before, h.db.refs());
        }
        let now = read_tree(&h.repo.root, &[".snapcd"])?;
        if now != h.work {
            viol!("step {} ({:?}) changed the working directory: {:?} became {:?}", i, st.args, h.work, now);
        }
    }
    for (i, (k, m)) in h.trees.clone().iter().enumerate() {
        let dest = base.join(format!("final{}", i));
        let o = h.repo.run(&["fetch".as_ref(), k.as_ref(), dest.as_os_str()])?;
        if !o.ok() {
            viol!("what was stored as {} cannot be fetched at the end: {}", k, o.brief());
        }
        let got = read_tree(&dest, &[])?;
        if got != *m {
            viol!("stored {:?} as {}, at the end fetched {:?}", m, k, got);
        }
    }
    for cm in h.commits.clone() {
        let o = h.repo.run(&["log", &cm.key])?;
        let want = format!("commit: {}\n\n{}\n\n", cm.key, cm.msg);
        if !o.ok() || !o.text().starts_with(&want) {
            viol!("commit {} with message {:?} is not shown at the end: {}", cm.key, cm.msg, o.brief());
        }
    }
    labels(&mut out, &h);
    out.nontrivial = n >= 3 && !h.trees.is_empty();
    Ok(out)
}

pub fn check6() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "Histories of edits and commands, succeeding and failing. After every command: no object or ref entry lost or \
               changed, working directory as before. At the end everything stored is fetched and every commit shown. Non-trivial: at least \
               three commands, something stored.",
        assumptions: vec![],
        parts: vec![Box::new(part("histories", 1000, 16000, |_| cases(16), run6))],
    }
}

// ---- C13 ----

fn long13(_: Tier) -> BoxedStrategy<Case> {
    (history(6), 4u32..12, any::<u16>(), any::<u32>())
        .prop_map(|((tree, cmds), b, r, s)| Case { tree, cmds, entries: ((1 << b) + r % (1 << b), s) })
        .boxed()
}

/// Puts many entries into the refs, as earlier commands would have.
fn prefill(h: &mut Hist, n: u16, seed: u32) -> Result<(), Fail> {
    for (cmd, what) in [(Cmd::Insert(65535), "insert"), (Cmd::CommitTree { t: 0, parents: vec![] }, "commit-tree")].iter() {
        let st = h.exec(cmd)?.ok_or_else(|| Fail::Infra(what.to_string()))?;
        if !st.o.as_ref().unwrap().ok() {
            viol!("{} fails: {}", what, st.o.unwrap().brief());
        }
        h.learn(cmd, &st)?;
    }
    let k = fmt::dbkey(&fmt::parse_key(&h.commits[0].key).unwrap());
    let conn = crate::db::open(&h.repo.db())?;
    conn.execute_batch("BEGIN")?;
    let mut s = seed as u64;
    for i in 0..n {
        let r = splitmix(&mut s);
        // Mostly two refs
        let name = if r % 8 > 1 { refname((r >> 8) as u8 % 2) } else { refname((r >> 8) as u8) };
        let rm = if (r >> 16) % 8 > 1 { None } else { Some(remote((r >> 24) as u8)) };
        let mut k = k.clone();
        // The newest of each ref has to be a commit, the others need not even exist
        if i + 200 < n {
            k[1..9].copy_from_slice(&r.to_be_bytes());
        }
        conn.execute("INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)", rusqlite::params![name, rm, k])?;
    }
    // So that no ref starts with an entry of no commit
    for name in REFS {
        for rm in std::iter::once(None).chain(REMOTES.iter().map(|x| Some(*x))) {
            conn.execute(
                "INSERT INTO reflog(refname, remote, key) SELECT ?1, ?2, ?3 WHERE EXISTS (SELECT * FROM reflog WHERE refname=?1 AND remote IS ?2)",
                rusqlite::params![name, rm, k],
            )?;
        }
    }
    conn.execute_batch("COMMIT")?;
    h.db = crate::db::load(&h.repo.db())?;
    Ok(())
}

fn run13(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut h = Hist::new(env, &base, &c.tree)?;
    let mut out = Out::default();
    if h.db.head().as_deref() != Some("master") || !h.db.reflog.is_empty() {
        viol!("init leaves HEAD {:?} and {} ref entries", h.db.head(), h.db.reflog.len());
    }
    if c.entries.0 > 0 {
        prefill(&mut h, c.entries.0, c.entries.1)?;
    }
    for (i, cmd) in c.cmds.iter().enumerate() {
        let st = match h.exec(cmd)? {
            Some(s) => s,
            None => continue,
        };
        h.learn(cmd, &st)?;
        let o = st.o.as_ref().unwrap();
        let what = format!("step {} ({:?})", i, st.args);
        let head_tree = st
            .prev
            .log(&st.prev.head().unwrap_or_default(), None)
            .first()
            .and_then(|k| h.commits.iter().find(|c| c.key == *k))
            .map(|c| c.tree.clone());
        // A commit of a single file has no directory to compare with.
        let file_head = head_tree.as_ref().map(|t| !t.is_dir()).unwrap_or(false);
        let dirty_head = matches!(cmd, Cmd::CheckoutHead(_)) && !o.text().starts_with("Ok");
        if let Some(want) = st.expect_ok.filter(|w| *w != o.ok() && !(file_head && matches!(cmd, Cmd::CheckoutHead(_)))) {
            viol!("{}: {} expected, got {}", what, if want { "success" } else { "failure" }, o.brief());
        }
        // What may change
        let mut refs = st.prev.refs();
        let mut head = st.prev.head();
        let cur = head.clone().unwrap_or_default();
        match cmd {
            Cmd::Commit { msg, r, .. } => {
                let name = r.map(|r| refname(r).to_string()).unwrap_or(cur);
                let new = h.db.refs();
                if new.len() != refs.len() + 1 || new[new.len() - 1].0 != name || new[new.len() - 1].1.is_some() {
                    viol!("{}: ref entries {:?} became {:?}", what, refs, new);
                }
                let k = new[new.len() - 1].2.clone();
                let objs = match fmt::fsck(&h.db) {
                    Ok(x) => x,
                    Err(e) => viol!("{}: {}", what, e),
                };
                let kk = match fmt::from_dbkey(&k) {
                    Some(k) => k,
                    None => viol!("{}: entry holds {:?}", what, k),
                };
                let ob = match objs.get(&kk) {
                    Some(ob) if ob.objtype == "Commit" => ob,
                    x => viol!("{}: entry names {:?}", what, x),
                };
                let want_parents: Vec<String> = st.prev.log(&name, None).first().cloned().into_iter().collect();
                let got_parents: Vec<String> = ob.keys[1..].iter().map(fmt::user_key).collect();
                if want_parents != got_parents {
                    viol!("{}: parents {:?}, expected {:?}", what, got_parents, want_parents);
                }
                match fmt::commit_message(&ob.data) {
                    Ok(m) if m == *msg => {}
                    x => viol!("{}: message {:?}", what, x),
                }
                let t = match fmt::read_model(&objs, &ob.keys[0]) {
                    Ok(t) => t,
                    Err(e) => viol!("{}: tree: {}", what, e),
                };
                if Some(&t) != st.stores.as_ref() {
                    viol!("{}: stored tree {:?}, expected {:?}", what, t, st.stores);
                }
                if !o.out.is_empty() {
                    // Nothing is promised about the output.
                }
                refs.push((name, None, k));
                out.nontrivial = true;
            }
            Cmd::RefUpdate { r, .. } => {
                let name = r.map(|r| refname(r).to_string()).unwrap_or(cur);
                let k = fmt::parse_key(&st.args[3]).unwrap();
                refs.push((name, None, fmt::dbkey(&k)));
            }
            Cmd::ReflogPush { r, remote: rm, .. } => {
                let k = fmt::parse_key(&st.args[3]).unwrap();
                refs.push((refname(*r).into(), rm.map(|x| remote(x).to_string()), fmt::dbkey(&k)));
            }
            Cmd::CommitTree { .. } => {
                let objs = match fmt::fsck(&h.db) {
                    Ok(x) => x,
                    Err(e) => viol!("{}: {}", what, e),
                };
                let k = o.text().trim().to_string();
                let ob = match fmt::parse_key(&k).and_then(|k| objs.get(&k)) {
                    Some(ob) if ob.objtype == "Commit" => ob,
                    x => viol!("{}: prints {:?}, which is {:?}", what, k, x),
                };
                let got: Vec<String> = ob.keys.iter().map(fmt::user_key).collect();
                let mut want = st.args[4..].to_vec();
                want.sort();
                let mut parents = got[1..].to_vec();
                parents.sort();
                if got[0] != st.args[3] || parents != want {
                    viol!("{}: made a commit of tree {} and parents {:?}", what, got[0], parents);
                }
                match fmt::commit_message(&ob.data) {
                    Ok(m) if m.is_empty() => {}
                    x => viol!("{}: message {:?}", what, x),
                }
            }
            Cmd::SetHead(r) => head = Some(refname(*r).into()),
            Cmd::CheckoutHead(r) => {
                if file_head {
                    if !dirty_head {
                        head = Some(refname(*r).into());
                    }
                } else {
                    let clean = h.work == head_tree.unwrap_or_else(M::empty);
                    if clean == dirty_head {
                        viol!("{}: clean {}, but {}", what, clean, o.brief());
                    }
                    if clean {
                        head = Some(refname(*r).into());
                    }
                }
            }
            _ => {}
        }
        if h.db.refs() != refs {
            viol!("{}: ref entries are {:?}, expected {:?}", what, h.db.refs(), refs);
        }
        if h.db.head() != head {
            viol!("{}: HEAD is {:?}, expected {:?}", what, h.db.head(), head);
        }
        if h.db.state.len() != 1 {
            viol!("{}: state {:?}", what, h.db.state);
        }
    }
    // What the commands say
    let o = h.repo.run(&["debug", "get-head"])?;
    if o.text() != format!("head: {:?}\n", h.db.head()) {
        viol!("get-head prints {:?}, HEAD is {:?}", o.text(), h.db.head());
    }
    for name in REFS {
        for rm in std::iter::once(None).chain(REMOTES.iter().map(|x| Some(*x))) {
            let want = h.db.log(name, rm);
            if want.is_empty() && rm.is_some() && *name != "b" {
                continue;
            }
            let mut args = vec!["ref", "log", "--", *name];
            args.extend(rm);
            let o = h.repo.run(&args)?;
            let got: Vec<String> = o.lines().into_iter().skip(1).collect();
            let exp: Vec<String> = want.iter().enumerate().map(|(i, k)| format!("{}: {}", want.len() - i, k)).collect();
            if !o.ok() || got != exp {
                viol!("ref log of {:?} {:?} prints {:?}, expected {:?}", name, rm, got, exp);
            }
            let mut args = vec!["debug", "reflog-get", "--", *name];
            args.extend(rm);
            let o = h.repo.run(&args)?;
            match want.first() {
                Some(k) if !o.ok() || o.text() != format!("{}\n", k) => {
                    viol!("reflog-get of {:?} {:?}: {}, expected {}", name, rm, o.brief(), k)
                }
                None if o.ok() => viol!("reflog-get of the empty ref {:?} {:?}: {}", name, rm, o.brief()),
                _ => {}
            }
        }
    }
    labels(&mut out, &h);
    Ok(out)
}

pub fn check13() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "Histories of edits and commands. After every command the ref entries, HEAD and (for commits) tree, parents and \
               message read from the database are those of the model; at the end ref log, reflog-get and get-head print \
               what the database holds. Non-trivial: the history contains a successful commit.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("histories", 800, 14000, |_| cases(18), run13)),
            Box::new(part("long", 60, 700, long13, run13)),
        ],
    }
}
