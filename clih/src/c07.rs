//! C07: damaged objects are detected.
use crate::{cli::*, db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Flip(u16, u8),
    Truncate(u16),
    Extend(Vec<u8>),
    Empty,
    /// The bytes of another object
    Swap(u16),
    Missing,
    /// Data replaced within a well formed record
    Rewrite(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Node,
    edits: Vec<Vec<Edit>>,
    /// Work on the working directory before the questions that look at it
    last: Vec<Edit>,
    which: u16,
    kind: u8,
    damage: Damage,
    /// So many more entries in a directory, one of the largest objects is damaged
    #[serde(default)]
    wide: u16,
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => "([a-c]{0,3}\n){0,6}".prop_map(|s| vec![Seg::Text(s)]),
        2 => "[a-z]{1,30}".prop_map(|s| vec![Seg::Text(s)]),
        2 => vec(prop_oneof![Just(0u8), Just(1), Just(9)], 1..4).prop_map(|l| vec![Seg::Blocks(l)]),
        1 => (any::<u8>(), edge_size()).prop_map(|(s, n)| vec![Seg::Fill(s % 128, n)]),
    ]
    .boxed()
}

fn cases(wide: bool) -> BoxedStrategy<Case> {
    let damage = prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b)),
        2 => any::<u16>().prop_map(Damage::Truncate),
        1 => vec(any::<u8>(), 1..4).prop_map(Damage::Extend),
        1 => Just(Damage::Empty),
        3 => any::<u16>().prop_map(Damage::Swap),
        3 => Just(Damage::Missing),
        2 => any::<u8>().prop_map(Damage::Rewrite),
    ];
    (
        tree_with(content(), name(), 2, 3),
        vec(vec(edit(content()), 0..3), 0..3),
        vec(edit(content()), 0..2),
        any::<u16>(),
        any::<u8>(),
        damage,
        if wide { prop_oneof![1 => 100u16..1000, 2 => 1000u16..4000].boxed() } else { Just(0u16).boxed() },
    )
        .prop_map(|(base, edits, last, which, kind, damage, wide)| Case { base, edits, last, which, kind, damage, wide })
        .boxed()
}

fn reach(objs: &std::collections::BTreeMap<fmt::K, fmt::Obj>, k: &fmt::K, set: &mut BTreeSet<fmt::K>) {
    if set.insert(*k) {
        if let Some(o) = objs.get(k) {
            for c in &o.keys {
                reach(objs, c, set);
            }
        }
    }
}

fn damaged(d: &Damage, k: &fmt::K, old: &[u8], objs: &std::collections::BTreeMap<fmt::K, fmt::Obj>, all: &db::Db) -> Option<Vec<u8>> {
    let mut v = old.to_vec();
    match d {
        Damage::Flip(at, bit) => {
            let i = *at as usize * v.len() / 65536;
            v[i] ^= 1 << bit;
        }
        Damage::Truncate(at) => v.truncate(*at as usize * v.len() / 65536),
        Damage::Extend(b) => v.extend_from_slice(b),
        Damage::Empty => v.clear(),
        Damage::Swap(n) => {
            // Preferably one of the same type
            let ty = &objs[k].objtype;
            let same: Vec<&fmt::K> = objs.iter().filter(|(q, o)| *q != k && (o.objtype == *ty || *n % 4 == 0)).map(|x| x.0).collect();
            let all_keys: Vec<&fmt::K> = objs.keys().filter(|q| *q != k).collect();
            let from = if same.is_empty() { all_keys } else { same };
            v = all.objects[&fmt::dbkey(pick(&from, *n)?)].clone();
        }
        Damage::Missing => return None,
        Damage::Rewrite(b) => {
            let o = &objs[k];
            let mut data = o.data.clone();
            let mut keys = o.keys.clone();
            if data.is_empty() || (b % 3 == 0 && !keys.is_empty()) {
                if keys.is_empty() {
                    data.push(*b);
                } else if b % 2 == 0 {
                    keys.pop();
                } else {
                    let l = keys.len();
                    keys.push(keys[*b as usize % l]);
                }
            } else {
                let l = data.len();
                data[*b as usize * l / 256] ^= 1;
            }
            v = fmt::encode_object(&data, &keys, &o.objtype);
        }
    }
    Some(v)
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let mut work = crate::c09::no_db(model(&c.base));
    for i in 0..c.wide {
        work.put(&format!("wide/{:060}", i), M::file(b"same\n"));
    }
    sync_tree(&r.root, &work, &[".snapcd"])?;
    // Longer arguments than this are not possible.
    let msg = if c.wide > 1000 { "long message ".repeat(9000) } else { "one".into() };
    r.must(&["commit", "-m", &msg])?;
    for (i, es) in c.edits.iter().enumerate() {
        for e in es {
            apply_edit(&mut work, e);
        }
        work = crate::c09::no_db(work);
        sync_tree(&r.root, &work, &[".snapcd"])?;
        r.must(&["commit", "-m", &format!("edit {}", i)])?;
    }
    let d0 = db::load(&r.db())?;
    let objs = match fmt::fsck(&d0) {
        Ok(o) => o,
        Err(e) => viol!("before any damage: {}", e),
    };
    let ck = fmt::parse_key(&d0.log("master", None)[0]).unwrap();
    let tk = objs[&ck].keys[0];
    // What is read, and from where
    let files: Vec<fmt::K> = {
        let mut s = BTreeSet::new();
        reach(&objs, &tk, &mut s);
        s.into_iter().filter(|k| objs[k].objtype.starts_with("F") && objs[k].objtype != "FSItemDir").collect()
    };
    let file = pick(&files, c.which.wrapping_mul(31));
    let dest = base.join("dest");
    let mut target = tk;
    let mut fetches = false;
    let kind = c.kind % 10;
    let args: Vec<String> = match (kind, file) {
        (0, _) | (1, None) => {
            fetches = true;
            vec!["fetch".into(), fmt::user_key(&tk), dest.to_str().unwrap().into()]
        }
        (1, Some(f)) => {
            target = f;
            vec!["show".into(), fmt::user_key(&f)]
        }
        (2, _) => {
            target = ck;
            vec!["show".into(), fmt::user_key(&ck)]
        }
        (3, _) | (4, _) => {
            target = ck;
            vec!["log".into(), fmt::user_key(&ck)]
        }
        (5, _) => vec!["compare".into(), fmt::user_key(&tk)],
        (6, _) => vec!["compare".into(), "--stat".into(), fmt::user_key(&tk)],
        (7, _) => {
            target = ck;
            vec!["status".into()]
        }
        (8, _) => vec!["debug".into(), "walk-tree".into(), fmt::user_key(&tk)],
        _ => {
            fetches = file.is_some();
            target = file.unwrap_or(tk);
            if fetches && objs[&target].objtype == "FSItemFile" {
                vec!["fetch".into(), fmt::user_key(&target), dest.to_str().unwrap().into()]
            } else {
                fetches = false;
                vec!["show".into(), fmt::user_key(&target)]
            }
        }
    };
    for e in &c.last {
        apply_edit(&mut work, e);
    }
    work = crate::c09::no_db(work);
    sync_tree(&r.root, &work, &[".snapcd"])?;
    let mut set = BTreeSet::new();
    reach(&objs, &target, &mut set);
    let set: Vec<fmt::K> = set.into_iter().collect();
    // Upper objects as often as the many lower ones
    let by_type: Vec<&str> = ["Commit", "FSItemDir", "FSItemFile", "FileBlobTree", "FileBlob"]
        .iter()
        .filter(|t| set.iter().any(|k| objs[k].objtype == **t))
        .cloned()
        .collect();
    let t = by_type[c.which as usize % by_type.len()];
    let mut some: Vec<fmt::K> = set.iter().filter(|k| objs[*k].objtype == t).cloned().collect();
    if c.wide > 0 {
        some = set.clone();
        some.sort_by_key(|k| std::cmp::Reverse(d0.objects[&fmt::dbkey(k)].len()));
        some.truncate(2);
    }
    let t = if c.wide > 0 { "large" } else { t };
    let victim = pick(&some, c.which).unwrap();
    let dbk = fmt::dbkey(&victim);
    let saved = base.join("saved.db");
    std::fs::copy(r.db(), &saved)?;
    let good = r.run(&args)?;
    let good_tree = if fetches && good.ok() { Some(read_tree(&dest, &[])?) } else { None };
    if fetches {
        if !good.ok() {
            viol!("{:?} fails before any damage: {}", args, good.brief());
        }
        if dest.is_dir() {
            std::fs::remove_dir_all(&dest)?;
        } else {
            std::fs::remove_file(&dest)?;
        }
    }
    std::fs::copy(&saved, r.db())?;
    let old = &d0.objects[&dbk];
    let new = damaged(&c.damage, &victim, old, &objs, &d0);
    if new.as_ref() == Some(old) {
        return Ok(out);
    }
    match &new {
        Some(v) => db::put_object(&r.db(), &dbk, v)?,
        None => db::delete_object(&r.db(), &dbk)?,
    }
    std::fs::remove_dir_all(&r.home)?;
    std::fs::create_dir_all(&r.home)?;
    let bad = r.run(&args)?;
    let what = format!("{} {} damaged by {:?}, {:?}", t, fmt::user_key(&victim), c.damage, args);
    // Everything below the key is needed by these.
    let needed = fetches || (args[0] == "show" && objs[&target].objtype != "Commit" && objs[&target].objtype != "FSItemDir");
    if bad.ok() {
        if needed {
            viol!("{} succeeds: {}", what, bad.brief());
        }
        if !good.ok() || sorted(&bad.out, &args) != sorted(&good.out, &args) {
            viol!("{} gives {}, undamaged {}", what, bad.brief(), good.brief());
        }
    }
    let _ = good_tree;
    out.label(true, t);
    out.label(!bad.ok(), "detected");
    out.label(bad.ok(), "not-needed");
    out.label(true, &format!("{}{}", args[0], if args[0] == "debug" { "-walk" } else { "" }));
    out.nontrivial = good.ok();
    Ok(out)
}

/// walk-tree prints in no particular order.
fn sorted(b: &[u8], args: &[String]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
    if args[0] == "debug" {
        v.sort();
    }
    v
}

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "A generated history of commits, then one object reachable from what is read is damaged in the database (bit \
               flips, truncation, extension, the bytes of another object, a rewritten well-formed record, removal; also in records of more than 100 KiB), then \
               fetch, show, log, compare, status or walk-tree reads it. Non-trivial: the read succeeds undamaged.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("damage", 2200, 40000, |_| cases(false), run)),
            Box::new(part("large", 120, 2000, |_| cases(true), run)),
        ],
    }
}
