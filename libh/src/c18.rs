//! C18: the data store against an in-memory model.
use crate::guard;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::Transactional;
use snapcd::{key::Key, DataStore, GetReflogError, Reflog};
use std::collections::BTreeMap;
use vc::runner::{part, Check, Env, Fail, Out, Res, Tier};
use vc::tree::{expand, Content, Seg};
use vc::viol;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put(Vec<u8>, Content),
    Store(Content),
    /// Many keys, starting with these bytes
    PutMany(Vec<u8>, u16),
    PushMany(u8, Option<u8>, u16),
    Get(Vec<u8>),
    GetAny(u16),
    Fetch(u16),
    Exists(Vec<u8>),
    PutState(Vec<u8>, Content),
    GetState(Vec<u8>),
    Head(String),
    Between(Vec<u8>, Option<Vec<u8>>),
    Push(u8, Option<u8>, u8),
    RefGet(u8, Option<u8>),
    Walk(u8, Option<u8>),
    Begin,
    Commit,
    Rollback,
    Reopen,
    All,
}

const NAMES: &[&str] = &["master", "a", "A", "", "é", "a ", "master2", "1", "%", "a_b", "a%b", "1.0"];

fn name(i: u8) -> &'static str {
    NAMES[i as usize % NAMES.len()]
}

fn key() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => vec(prop_oneof![Just(0u8), Just(1), Just(255), Just(b'a'), Just(b'A')], 0..4),
        1 => vec(any::<u8>(), 0..40),
        2 => Just(b"HEAD".to_vec()),
    ]
    .boxed()
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => vc::tree::small_bytes(),
        1 => (any::<u32>(), 1u32..900_000).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let r = || prop::option::weighted(0.5, 0u8..6);
    prop_oneof![
        6 => (key(), content()).prop_map(|(k, c)| Op::Put(k, c)),
        2 => content().prop_map(Op::Store),
        1 => (key(), 100u16..1500).prop_map(|(k, n)| Op::PutMany(k, n)),
        1 => (0u8..12, r(), 100u16..1500).prop_map(|(k, r, n)| Op::PushMany(k, r, n)),
        3 => key().prop_map(Op::Get),
        2 => any::<u16>().prop_map(Op::GetAny),
        2 => any::<u16>().prop_map(Op::Fetch),
        2 => key().prop_map(Op::Exists),
        4 => (key(), content()).prop_map(|(k, c)| Op::PutState(k, c)),
        3 => key().prop_map(Op::GetState),
        1 => "[a-z/é \\t]{0,6}".prop_map(Op::Head),
        4 => (key(), prop::option::of(key())).prop_map(|(a, b)| Op::Between(a, b)),
        5 => (0u8..12, r(), any::<u8>()).prop_map(|(n, r, k)| Op::Push(n, r, k)),
        3 => (0u8..12, r()).prop_map(|(n, r)| Op::RefGet(n, r)),
        3 => (0u8..12, r()).prop_map(|(n, r)| Op::Walk(n, r)),
        3 => Just(Op::Begin),
        2 => Just(Op::Commit),
        2 => Just(Op::Rollback),
        1 => Just(Op::Reopen),
        1 => Just(Op::All),
    ]
    .boxed()
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    data: BTreeMap<Vec<u8>, Vec<u8>>,
    state: BTreeMap<Vec<u8>, Vec<u8>>,
    refs: Vec<(String, Option<String>, u8)>,
}

fn run(env: &Env, ops: &Vec<Op>) -> Res {
    let base = env.fresh();
    let path = base.join("x.db");
    let open = || SqliteDS::new(&path);
    let mut ds = match open() {
        Ok(d) => d,
        Err(e) => viol!("open: {}", e),
    };
    let mut m = Model::default();
    let mut saved: Option<Model> = None;
    let mut out = Out::default();
    let mut changed_in_trans = false;
    for (i, op) in ops.iter().enumerate() {
        let r = guard(std::panic::AssertUnwindSafe(|| -> Result<(), Fail> {
            macro_rules! ok {
                ($e:expr) => {
                    match $e {
                        Ok(x) => x,
                        Err(e) => viol!("step {} {:?}: {}", i, op, e),
                    }
                };
            }
            match op {
                Op::Put(k, c) => {
                    let v = expand(c);
                    ok!(ds.raw_put(k, &v));
                    m.data.entry(k.clone()).or_insert(v);
                    changed_in_trans |= saved.is_some();
                }
                Op::Store(c) => {
                    let v = expand(c);
                    let k = ok!(ds.put(v.clone()));
                    if k != Key::Blake3B(*blake3::hash(&v).as_bytes()) {
                        viol!("step {}: put returns {}", i, k);
                    }
                    let got = ok!(ds.get(k)).to_vec();
                    if got != v {
                        viol!("step {}: get after put returns {} bytes, {} were put", i, got.len(), v.len());
                    }
                    m.data.entry(k.as_db_key()).or_insert(v);
                    changed_in_trans |= saved.is_some();
                }
                Op::PutMany(k, n) => {
                    // One transaction, for speed
                    let mine = saved.is_none();
                    if mine {
                        ok!(ds.begin_trans());
                    }
                    for i in 0..*n {
                        let mut k = k.clone();
                        k.extend_from_slice(&i.to_be_bytes());
                        let v = (i as u32 * 7919).to_le_bytes().to_vec();
                        ok!(ds.raw_put(&k, &v));
                        m.data.entry(k).or_insert(v);
                    }
                    if mine {
                        ok!(ds.commit());
                    } else {
                        changed_in_trans = true;
                    }
                }
                Op::PushMany(n, r, count) => {
                    let mine = saved.is_none();
                    if mine {
                        ok!(ds.begin_trans());
                    }
                    for i in 0..*count {
                        let remote = r.map(|r| name(r).to_string());
                        let e = Reflog { refname: name(*n).into(), key: Key::Blake3B([i as u8; 32]).into(), remote: remote.clone() };
                        ok!(ds.reflog_push(&e));
                        m.refs.push((name(*n).into(), remote, i as u8));
                    }
                    if mine {
                        ok!(ds.commit());
                    } else {
                        changed_in_trans = true;
                    }
                }
                Op::Get(k) => cmp_get(&ds, &m, k)?,
                Op::GetAny(n) | Op::Fetch(n) => {
                    let ks: Vec<Vec<u8>> = m.data.keys().cloned().collect();
                    if let Some(k) = vc::tree::pick(&ks, *n) {
                        cmp_get(&ds, &m, &k)?;
                        if let Some(h) = vc::fmt::from_dbkey(&k) {
                            let good = *blake3::hash(&m.data[&k]).as_bytes() == h;
                            let got = ds.get(Key::Blake3B(h));
                            match got {
                                Ok(v) if v.to_vec() == m.data[&k] && good => {}
                                Err(_) if !good => {}
                                x => viol!("step {}: get gives {:?}", i, x.map(|v| v.len())),
                            }
                        }
                    }
                }
                Op::Exists(k) => {
                    if ok!(ds.raw_exists(k)) != m.data.contains_key(k) {
                        viol!("step {}: raw_exists({:?}) is wrong", i, k);
                    }
                }
                Op::PutState(k, c) => {
                    let v = expand(c);
                    ok!(ds.raw_put_state(k, &v));
                    m.state.insert(k.clone(), v);
                    changed_in_trans |= saved.is_some();
                }
                Op::GetState(k) => {
                    let g = ok!(ds.raw_get_state(k));
                    if g.as_ref() != m.state.get(k) {
                        viol!("step {}: state {:?} is {:?}, expected {:?}", i, k, g.map(|x| x.len()), m.state.get(k).map(|x| x.len()));
                    }
                }
                Op::Head(s) => {
                    ok!(ds.put_head(s));
                    m.state.insert(b"HEAD".to_vec(), s.clone().into_bytes());
                    let h = ok!(ds.get_head());
                    if h.as_ref() != Some(s) {
                        viol!("step {}: HEAD is {:?}, put {:?}", i, h, s);
                    }
                    changed_in_trans |= saved.is_some();
                }
                Op::Between(a, b) => {
                    let mut g = ok!(ds.raw_between(a, b.as_deref()));
                    g.sort();
                    let w: Vec<Vec<u8>> =
                        m.data.keys().filter(|k| *k >= a && b.as_ref().map(|b| *k < b).unwrap_or(true)).cloned().collect();
                    if g != w {
                        viol!("step {}: keys from {:?} to {:?}: {:?}, expected {:?}", i, a, b, g, w);
                    }
                }
                Op::Push(n, r, k) => {
                    let remote = r.map(|r| name(r).to_string());
                    let e = Reflog { refname: name(*n).into(), key: Key::Blake3B([*k; 32]).into(), remote: remote.clone() };
                    ok!(ds.reflog_push(&e));
                    m.refs.push((name(*n).into(), remote, *k));
                    changed_in_trans |= saved.is_some();
                }
                Op::RefGet(n, r) => cmp_refs(&ds, &m, name(*n), r.map(name))?,
                Op::Walk(n, r) => cmp_refs(&ds, &m, name(*n), r.map(name))?,
                Op::Begin => {
                    let r = ds.begin_trans();
                    if r.is_ok() != saved.is_none() {
                        viol!("step {}: begin gives {:?}, in a transaction: {}", i, r, saved.is_some());
                    }
                    if saved.is_none() {
                        saved = Some(m.clone());
                    }
                }
                Op::Commit => {
                    let r = ds.commit();
                    if r.is_ok() != saved.is_some() {
                        viol!("step {}: commit gives {:?}, in a transaction: {}", i, r, saved.is_some());
                    }
                    out.label(saved.is_some() && changed_in_trans, "commit");
                    saved = None;
                    changed_in_trans = false;
                }
                Op::Rollback => {
                    let r = ds.rollback();
                    if r.is_ok() != saved.is_some() {
                        viol!("step {}: rollback gives {:?}, in a transaction: {}", i, r, saved.is_some());
                    }
                    out.label(saved.is_some() && changed_in_trans, "rollback");
                    out.nontrivial |= saved.is_some() && changed_in_trans;
                    if let Some(s) = saved.take() {
                        m = s;
                    }
                    changed_in_trans = false;
                }
                Op::Reopen => {
                    ds = ok!(SqliteDS::new(base.join("other.db")));
                    if let Some(s) = saved.take() {
                        m = s;
                    }
                    changed_in_trans = false;
                    // Opened afresh, and once more by a second user at the same time.
                    ds = ok!(open());
                    let second = ok!(open());
                    compare(&second, &m, i)?;
                    compare(&ds, &m, i)?;
                    out.label(true, "reopen");
                    out.nontrivial = true;
                }
                Op::All => compare(&ds, &m, i)?,
            }
            Ok(())
        }));
        match r {
            Ok(r) => r?,
            Err(p) => viol!("step {} {:?} panics: {}", i, op, p),
        }
    }
    compare(&ds, &m, ops.len())?;
    // A rollback of what is still open, and what the file then holds.
    if let Some(s) = saved {
        if ops.len() % 2 == 0 {
            if let Err(e) = ds.rollback() {
                viol!("last rollback: {}", e);
            }
            compare(&ds, &s, ops.len())?;
        }
        m = s;
    }
    drop(ds);
    let d = vc::db::load(&path)?;
    if d.objects != m.data || d.state != m.state || d.reflog.len() != m.refs.len() {
        viol!("the file holds {} objects, {} state entries, {} ref entries, expected {} {} {}", d.objects.len(), d.state.len(), d.reflog.len(), m.data.len(), m.state.len(), m.refs.len());
    }
    match open() {
        Ok(ds) => compare(&ds, &m, ops.len())?,
        Err(e) => viol!("open: {}", e),
    }
    Ok(out)
}

fn cmp_get(ds: &SqliteDS, m: &Model, k: &[u8]) -> Result<(), Fail> {
    match (ds.raw_get(k), m.data.get(k)) {
        (Ok(g), Some(w)) if g.to_vec() == *w => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => viol!("get of {:?}: {:?}, expected {:?}", k, g.map(|x| x.len()), w.map(|x| x.len())),
    }
}

fn cmp_refs(ds: &SqliteDS, m: &Model, n: &str, r: Option<&str>) -> Result<(), Fail> {
    let w: Vec<Key> =
        m.refs.iter().rev().filter(|x| x.0 == n && x.1.as_deref() == r).map(|x| Key::Blake3B([x.2; 32])).collect();
    match ds.reflog_walk(n, r) {
        Ok(g) if g.iter().map(|k| k.inner()).collect::<Vec<_>>() == w => {}
        g => viol!("walk of {:?} {:?}: {:?}, expected {:?}", n, r, g, w),
    }
    match (ds.reflog_get(n, r), w.first()) {
        (Ok(g), Some(w)) if g.inner() == *w => Ok(()),
        (Err(GetReflogError::NotFound), None) => Ok(()),
        (g, w) => viol!("newest entry of {:?} {:?}: {:?}, expected {:?}", n, r, g, w),
    }
}

fn compare(ds: &SqliteDS, m: &Model, i: usize) -> Result<(), Fail> {
    for k in m.data.keys() {
        cmp_get(ds, m, k)?;
        match ds.raw_exists(k) {
            Ok(true) => {}
            x => viol!("step {}: raw_exists({:?}) is {:?}", i, k, x),
        }
    }
    let mut all = match ds.raw_between(&[], None) {
        Ok(x) => x,
        Err(e) => viol!("raw_between: {}", e),
    };
    all.sort();
    let w: Vec<Vec<u8>> = m.data.keys().cloned().collect();
    if all != w {
        viol!("step {}: keys are {:?}, expected {:?}", i, all, w);
    }
    for (k, v) in &m.state {
        match ds.raw_get_state(k) {
            Ok(Some(g)) if g == *v => {}
            x => viol!("step {}: state {:?} is {:?}, expected {} bytes", i, k, x.map(|o| o.map(|v| v.len())), v.len()),
        }
    }
    if !m.state.contains_key(&b"HEAD"[..]) {
        match ds.get_head() {
            Ok(None) => {}
            x => viol!("step {}: HEAD is {:?}", i, x),
        }
    }
    for n in NAMES {
        for r in std::iter::once(None).chain(NAMES.iter().take(6).map(|x| Some(*x))) {
            cmp_refs(ds, m, n, r)?;
        }
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "Operation sequences (puts, gets, ranges, state, ref entries, begin, commit, rollback, reopening, small and \
               several-hundred-kilobyte values) on a store, each answer judged against maps and lists. Non-trivial: a \
               rollback of changes or a reopening.",
        assumptions: vec![],
        parts: vec![Box::new(part("operations", 2500, 40000, |_: Tier| vec(op(), 1..60).boxed(), run).shrink(400))],
    }
}
