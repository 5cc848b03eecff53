//! C04: the stored format is the documented, stable one, in both directions.
use crate::{cli::*, db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;


pub fn message() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z0-9 .,!'-]{0,30}",
        1 => "[a-z]{1,5}(\n[a-z]{0,5}){1,3}",
        1 => prop::sample::select(vec!["", "é日本", "{}", "\\n", "\t", "%s", "'\"", " lead", "trail ", "\n", "\n\nx\n", "x\n\n", "\r\n", "commit: b", "-m"]).prop_map(|s| s.to_string()),
        1 => (1usize..20_000, "[a-z é]{1,9}").prop_map(|(n, s)| s.repeat(n / s.len() + 1)),
    ]
    .boxed()
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![8 => small_bytes(), 2 => medium_content(), 1 => large_content()].boxed()
}

// ---- what snapcd writes ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriteCase {
    steps: Vec<(Node, bool, String)>,
}

fn write_cases(_: Tier) -> BoxedStrategy<WriteCase> {
    let node = prop_oneof![3 => tree_with(content(), name(), 3, 4), 1 => content().prop_map(Node::F)];
    vec((node, any::<bool>(), message()), 1..4).prop_map(|steps| WriteCase { steps }).boxed()
}

fn shape_cases(_: Tier) -> BoxedStrategy<WriteCase> {
    vec((shape(2000), any::<bool>(), message()), 1..3).prop_map(|steps| WriteCase { steps }).boxed()
}

fn run_write(env: &Env, c: &WriteCase) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut expect = fmt::Objs::new();
    let mut parent: Vec<fmt::K> = vec![];
    let mut out = Out::default();
    for (i, (n, commit, msg)) in c.steps.iter().enumerate() {
        let m = model(n);
        let src = base.join(format!("src{}", i));
        write_tree(&src, &m)?;
        let tk = fmt::put_tree(&mut expect, &m);
        if *commit {
            r.must(&["commit", &format!("--message={}", msg), "-p", src.to_str().unwrap()])?;
            let ck = fmt::put_commit(&mut expect, tk, &parent, msg);
            let got = db::load(&r.db())?.log("master", None).first().cloned();
            if got.as_deref() != Some(&fmt::user_key(&ck)) {
                viol!("commit of {:?} with message {:?}: expected key {}, got {:?}", m, msg, fmt::user_key(&ck), got);
            }
            parent = vec![ck];
        } else {
            let k = r.insert(&src)?;
            if k != fmt::user_key(&tk) {
                viol!("insert of {:?}: expected key {}, got {}", m, fmt::user_key(&tk), k);
            }
        }
        out.label(m.files().iter().any(|f| f.1.len() > 32768), "chunked");
        out.label(*commit, "commit");
        out.nontrivial |= m.paths().len() > 1 || m.files().iter().any(|f| f.1.len() > 32768);
    }
    let d = db::load(&r.db())?;
    for (k, v) in &expect {
        match d.objects.get(&fmt::dbkey(k)) {
            None => viol!("object {} is not stored", fmt::user_key(k)),
            Some(x) if *x != **v => viol!("object {} is stored with other bytes", fmt::user_key(k)),
            _ => {}
        }
    }
    for k in d.objects.keys() {
        let ok = fmt::from_dbkey(k).map(|k| expect.contains_key(&k)).unwrap_or(false);
        if !ok {
            viol!("unexpected object {}", fmt::user_key_db(k));
        }
    }
    Ok(out)
}

// ---- more blobs than a node of the blob tree may have ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    seg: Seg,
    tail: Content,
    commit: bool,
}

fn long_cases(_: Tier) -> BoxedStrategy<Long> {
    // The first blob ends in the middle of a block
    let blocks = prop_oneof![4 => 509u32..518, 1 => 1021u32..1030, 1 => 300u32..700];
    let seg = (prop_oneof![3 => Just(9u8), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], blocks, any::<u8>(), any::<bool>()).prop_map(
        |(l, n, b, fill)| match fill {
            true => Seg::Fill(b, n * 65536 - 32768),
            false => Seg::Many(l, n),
        },
    );
    (seg, content(), any::<bool>()).prop_map(|(seg, tail, commit)| Long { seg, tail, commit }).boxed()
}

fn run_long(env: &Env, c: &Long) -> Res {
    let mut content = vec![c.seg.clone()];
    content.extend(c.tail.iter().cloned());
    let w = WriteCase { steps: vec![(Node::F(content), c.commit, "long".into())] };
    let mut out = run_write(env, &w)?;
    out.labels.push(match &c.seg {
        Seg::Fill(_, n) | Seg::Many(_, n) => format!("blobs about {}", if *n > 10000 { n / 65536 } else { *n } / 512 * 512),
        _ => String::new(),
    });
    out.nontrivial = true;
    Ok(out)
}

// ---- what snapcd reads ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    commits: Vec<(Node, String)>,
    /// Chunk files at arbitrary places into a tree of arbitrary shape (else as snapcd does)
    shape: Option<Vec<u16>>,
    extra: Vec<(String, String)>,
    remote: bool,
}

fn read_cases(_: Tier) -> BoxedStrategy<ReadCase> {
    let text = "([a-z]{0,6}\n){0,6}[a-z]{0,3}".prop_map(|s| vec![Seg::Text(s)]);
    let c = prop_oneof![4 => text, 1 => small_bytes(), 1 => medium_content()].boxed();
    let node = tree_with(c, name(), 3, 3);
    (
        vec((node, message()), 1..4),
        prop::option::of(vec(any::<u16>(), 1..12)),
        prop_oneof![3 => Just(vec![]), 1 => vec(("[a-z]{1,5}".prop_map(|s| s), "[a-z]{0,5}".prop_map(|s| s)), 1..2)],
        any::<bool>(),
    )
        .prop_map(|(commits, shape, extra, remote)| ReadCase { commits, shape, extra, remote })
        .boxed()
}

/// Some other chunking of the same content.
fn odd_content(objs: &mut fmt::Objs, data: &[u8], shape: &[u16], at: &mut usize, depth: u32) -> fmt::K {
    let mut next = || {
        *at += 1;
        shape[*at % shape.len()] as usize
    };
    let kind = next();
    if depth > 4 || kind % 3 == 0 {
        return fmt::put(objs, fmt::encode_object(data, &[], "FileBlob"));
    }
    let parts = next() % 4 + 1;
    let mut keys = vec![];
    let mut rest = data;
    for i in 0..parts {
        let n = if i + 1 == parts {
            rest.len()
        } else {
            *at += 1;
            (shape[*at % shape.len()] as usize) * rest.len() / 65535
        };
        keys.push(odd_content(objs, &rest[..n], shape, at, depth + 1));
        rest = &rest[n..];
    }
    fmt::put(objs, fmt::encode_object(&[], &keys, "FileBlobTree"))
}

fn odd_tree(objs: &mut fmt::Objs, m: &M, shape: &[u16], at: &mut usize) -> fmt::K {
    match m {
        M::F(b) => {
            let c = odd_content(objs, b, shape, at, 0);
            fmt::put(objs, fmt::encode_object(&fmt::encode_fsitem(b.len() as u64, false, &[]), &[c], "FSItemFile"))
        }
        M::D(d) => {
            let mut keys = vec![];
            let mut names = vec![];
            for (n, c) in d {
                keys.push(odd_tree(objs, c, shape, at));
                names.push(n.clone());
            }
            fmt::put(objs, fmt::encode_object(&fmt::encode_fsitem(keys.len() as u64, true, &names), &keys, "FSItemDir"))
        }
    }
}

pub fn write_repo(dbpath: &Path, objs: &fmt::Objs, head: &str, refs: &[(String, Option<String>, fmt::K)]) -> Result<(), Fail> {
    let c = rusqlite::Connection::open(dbpath)?;
    c.execute_batch(
        "PRAGMA page_size=16384; PRAGMA synchronous=OFF; BEGIN;
         CREATE TABLE data (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID;
         CREATE TABLE state (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID;
         CREATE TABLE reflog (id INTEGER PRIMARY KEY, refname TEXT NOT NULL, remote TEXT, key BLOB);",
    )?;
    for (k, v) in objs {
        c.execute("INSERT INTO data VALUES (?, ?)", rusqlite::params![fmt::dbkey(k), &***v])?;
    }
    c.execute("INSERT INTO state VALUES (?, ?)", rusqlite::params![&b"HEAD"[..], head.as_bytes()])?;
    for (n, rm, k) in refs {
        c.execute("INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)", rusqlite::params![n, rm, fmt::dbkey(k)])?;
    }
    c.execute_batch("COMMIT")?;
    Ok(())
}

fn run_read(env: &Env, c: &ReadCase) -> Res {
    let base = env.fresh();
    let r = Repo::at(env, &base);
    std::fs::create_dir(r.root.join(".snapcd"))?;
    let mut objs = fmt::Objs::new();
    let mut parent: Vec<fmt::K> = vec![];
    let mut refs = vec![];
    let mut made: Vec<(M, fmt::K, fmt::K, String)> = vec![];
    let mut at = 0;
    for (n, msg) in &c.commits {
        let m = model(n);
        let tk = match &c.shape {
            Some(s) => odd_tree(&mut objs, &m, s, &mut at),
            None => fmt::put_tree(&mut objs, &m),
        };
        let mut keys = vec![tk];
        keys.extend(&parent);
        let ck = fmt::put(&mut objs, fmt::encode_object(&fmt::encode_commit_attrs(msg, &c.extra), &keys, "Commit"));
        parent = vec![ck];
        refs.push(("main".to_string(), None, ck));
        if c.remote {
            refs.push(("main".to_string(), Some("there".to_string()), tk));
        }
        made.push((m, tk, ck, msg.clone()));
    }
    write_repo(&r.db(), &objs, "main", &refs)?;
    let mut out = Out::default();
    // fetch, show
    for (i, (m, tk, _, _)) in made.iter().enumerate() {
        let dest = base.join(format!("out{}", i));
        let o = r.run(&["fetch".as_ref(), fmt::user_key(tk).as_ref(), dest.as_os_str()])?;
        if !o.ok() {
            viol!("fetch fails: {}", o.brief());
        }
        let got = read_tree(&dest, &[])?;
        if got != *m {
            viol!("written {:?}, fetched {:?}", m, got);
        }
        for (path, b) in m.files().into_iter().take(3) {
            let parsed = fmt::decode_object(&objs[tk]).map_err(Fail::Infra)?;
            let _ = parsed;
            let k = find_key(&objs, tk, &path).ok_or(Fail::Infra("key of path".into()))?;
            let o = r.run(&["show", &fmt::user_key(&k)])?;
            if o.code != Some(0) || o.out != **b {
                viol!("show of file {:?} with {} bytes: {}", path, b.len(), o.brief());
            }
        }
        out.label(m.files().iter().any(|f| f.1.len() > 32768), "chunked");
    }
    // log: all commits, newest first
    let o = r.must(&["log"])?;
    let got: Vec<String> = o.lines().iter().filter_map(|l| l.strip_prefix("commit: ").map(|s| s.to_string())).collect();
    let want: Vec<String> = made.iter().rev().map(|x| fmt::user_key(&x.2)).collect();
    if got != want && !made.iter().any(|x| x.3.contains("commit: ")) {
        viol!("log lists {:?}, expected {:?}", got, want);
    }
    let mut pos = 0;
    let text = o.text();
    for x in made.iter().rev() {
        let want = format!("commit: {}\n\n{}\n", fmt::user_key(&x.2), x.3);
        match text[pos..].find(&want) {
            Some(i) => pos += i + want.len(),
            None => viol!("log does not contain {:?}: {:?}", want, text),
        }
    }
    let o = r.must(&["ref", "log"])?;
    let got: Vec<String> = o.lines().iter().skip(1).map(|l| l.rsplit(' ').next().unwrap_or("").to_string()).collect();
    if got != want_refs(&made) {
        viol!("ref log lists {:?}", o.text());
    }
    if c.remote {
        let o = r.must(&["debug", "reflog-get", "main", "there"])?;
        if o.text().trim() != fmt::user_key(&made.last().unwrap().1) {
            viol!("remote ref gives {:?}", o.text());
        }
    }
    // status, when the files are chunked as snapcd does it
    if c.shape.is_none() {
        let last = &made.last().unwrap().0;
        if !last.dir().contains_key(".snapcd") {
            sync_tree(&r.root, last, &[".snapcd"])?;
            let o = r.must(&["status"])?;
            let want = format!("HEAD: main [{}]\n", &fmt::user_key(&made.last().unwrap().2)[..8]);
            if o.text() != want {
                viol!("status of the committed tree gives {:?}, expected {:?}", o.text(), want);
            }
        }
    }
    out.label(c.shape.is_some(), "odd-chunks");
    out.nontrivial = made.iter().any(|x| x.0.paths().len() > 1);
    Ok(out)
}

fn want_refs(made: &[(M, fmt::K, fmt::K, String)]) -> Vec<String> {
    made.iter().rev().map(|x| fmt::user_key(&x.2)).collect()
}

pub fn find_key(objs: &fmt::Objs, root: &fmt::K, path: &str) -> Option<fmt::K> {
    let mut k = *root;
    for c in path.split('/').filter(|x| !x.is_empty()) {
        let o = fmt::decode_object(objs.get(&k)?).ok()?;
        let i = fmt::decode_item(&o.data).ok()?;
        let n = i.names.iter().position(|x| x == c)?;
        k = o.keys[n];
    }
    Some(k)
}


pub fn check() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "writes: trees and commits stored by snapcd must give exactly the objects and keys computed by an independent \
               encoder and chunker, and no others; shapes: for wide and deep directories; long: for files of more blobs than one node takes. reads: repositories written by an independent implementation (also \
               with other valid chunkings, mixed blob trees and extra commit attributes) are read back by fetch, show, \
               log, ref log and status. Non-trivial: more than one entry or a chunked file.",
        assumptions: vec!["the rolling-hash table of the gearhash crate and the blake3 crate are trusted"],
        parts: vec![
            Box::new(part("writes", 1500, 20000, write_cases, run_write)),
            Box::new(part("shapes", 60, 600, shape_cases, run_write).shrink(60)),
            Box::new(part("long", 48, 400, long_cases, run_long).shrink(12)),
            Box::new(part("reads", 1000, 15000, read_cases, run_read)),
        ],
    }
}
