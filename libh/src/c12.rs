//! C12: a key, prefix or ref name resolves to exactly what it names.
use crate::guard;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::{ds::CanonicalizeError, key::Key, DataStore, Keyish, Reflog};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use vc::cli::{contains, Repo};
use vc::runner::{part, Check, Env, Fail, Out, Res, Tier};
use vc::{fmt, viol};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KeySpec {
    Rnd(u32),
    /// Shares this many bits with an earlier key, the next bit differs, then random or constant
    Near(u16, u8, u8),
    Fill(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Query {
    /// Prefix of this many encoded characters of a stored key, with its case changed by a pattern
    Prefix(u16, u8, u16),
    Full(u16, u16),
    /// A full key with its last characters replaced or more added
    Bent(u16, String, u8),
    /// A key that is not stored, near one that is
    Absent(u16, u8),
    /// A prefix of a stored key with one bit of one of its characters changed
    Flip(u16, u8, u8, u8),
    Ref(Option<u8>, u8),
    Text(String),
    Enc(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    keys: Vec<KeySpec>,
    refs: Vec<(Option<u8>, u8, u16)>,
    queries: Vec<Query>,
}

const NAMES: &[&str] = &["master", "a", "b", "", "a/b", "/", "é", "B", "baaa", "x y", "mast", "%"];
const REMOTES: &[&str] = &["r", "b", "a", "R", "é", "r ", "master", ""];

fn name(i: u8) -> &'static str {
    NAMES[i as usize % NAMES.len()]
}
fn remote(i: u8) -> &'static str {
    REMOTES[i as usize % REMOTES.len()]
}

fn query() -> BoxedStrategy<Query> {
    prop_oneof![
        8 => (any::<u16>(), prop_oneof![1 => 0u8..4, 2 => 0u8..53, 1 => 48u8..53], any::<u16>()).prop_map(|(a, b, c)| Query::Prefix(a, b, c)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, c)| Query::Full(a, c)),
        2 => (any::<u16>(), "[a-z2-7A-Z0-9]{0,3}", 0u8..4).prop_map(|(a, s, n)| Query::Bent(a, s, n)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Query::Absent(a, b)),
        2 => (any::<u16>(), prop_oneof![0u8..10, 0u8..53], any::<u8>(), 0u8..7).prop_map(|(a, n, i, b)| Query::Flip(a, n, i, b)),
        4 => (prop::option::weighted(0.6, any::<u8>()), any::<u8>()).prop_map(|(a, b)| Query::Ref(a, b)),
        1 => any::<String>().prop_map(Query::Text),
        1 => "[bBac/2-9A-Zé ]{0,5}".prop_map(Query::Text),
        1 => "[a-zA-Z2-7]{0,60}".prop_map(Query::Enc),
    ]
    .boxed()
}

fn cases(n: usize) -> BoxedStrategy<Case> {
    let key = prop_oneof![
        2 => any::<u32>().prop_map(KeySpec::Rnd),
        4 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| KeySpec::Near(a, b, c)),
        1 => prop_oneof![Just(0u8), Just(255), Just(0x80), Just(0x7f)].prop_map(KeySpec::Fill),
    ];
    (
        vec(key, 0..14),
        vec((prop::option::weighted(0.6, any::<u8>()), any::<u8>(), any::<u16>()), 0..10),
        vec(query(), 1..n),
    )
        .prop_map(|(keys, refs, queries)| Case { keys, refs, queries })
        .boxed()
}

pub fn keys(specs: &[KeySpec]) -> Vec<[u8; 32]> {
    let mut v: Vec<[u8; 32]> = vec![];
    for s in specs {
        let k = match s {
            KeySpec::Fill(b) => [*b; 32],
            KeySpec::Near(i, bit, rest) if !v.is_empty() => {
                let mut k = v[*i as usize * v.len() / 65536];
                let bit = *bit as usize;
                k[bit / 8] ^= 0x80 >> (bit % 8);
                match rest % 4 {
                    0 => {}
                    1 => {
                        k[bit / 8 + 1..].iter_mut().for_each(|x| *x = 0xff);
                    }
                    2 => {
                        k[bit / 8 + 1..].iter_mut().for_each(|x| *x = 0);
                    }
                    _ => {
                        let r = vc::tree::rnd_bytes(*rest as u64 * 256 + bit as u64, 32);
                        k[bit / 8 + 1..].copy_from_slice(&r[bit / 8 + 1..]);
                    }
                }
                k
            }
            KeySpec::Near(_, a, b) => {
                let mut k = [0; 32];
                k.copy_from_slice(&vc::tree::rnd_bytes(*a as u64 * 256 + *b as u64, 32));
                k
            }
            KeySpec::Rnd(s) => {
                let mut k = [0; 32];
                k.copy_from_slice(&vc::tree::rnd_bytes(*s as u64, 32));
                k
            }
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}

fn recase(s: &str, pat: u16) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if i > 0 && pat >> (i % 16) & 1 == 1 { c.to_ascii_uppercase() } else { c })
        .collect()
}

pub fn text(q: &Query, ks: &[[u8; 32]]) -> String {
    let pick = |n: u16| if ks.is_empty() { [7u8; 32] } else { ks[n as usize * ks.len() / 65536] };
    match q {
        Query::Prefix(n, len, case) => recase(&fmt::user_key(&pick(*n))[..1 + *len as usize], *case),
        Query::Full(n, case) => recase(&fmt::user_key(&pick(*n)), *case),
        Query::Bent(n, s, cut) => {
            let k = fmt::user_key(&pick(*n));
            format!("{}{}", &k[..k.len() - *cut as usize], s)
        }
        Query::Absent(n, bit) => {
            let mut k = pick(*n);
            k[*bit as usize / 8] ^= 0x80 >> (bit % 8);
            fmt::user_key(&k)
        }
        Query::Flip(n, len, i, bit) => {
            let mut t = fmt::user_key(&pick(*n))[..1 + *len as usize % 53].as_bytes().to_vec();
            let i = *i as usize % t.len();
            t[i] ^= 1 << (bit % 7);
            String::from_utf8(t).unwrap()
        }
        Query::Ref(None, n) => format!("/{}", name(*n)),
        Query::Ref(Some(r), n) => format!("{}/{}", remote(*r), name(*n)),
        Query::Text(s) => s.clone(),
        Query::Enc(s) => format!("b{}", s),
    }
}

#[derive(Debug, PartialEq, Eq)]
pub enum Want {
    Key([u8; 32]),
    Ambiguous(BTreeSet<[u8; 32]>),
    NotFound,
    /// Rejected, or not found
    Error,
}

pub fn model(t: &str, ks: &[[u8; 32]], refs: &BTreeMap<(Option<String>, String), [u8; 32]>) -> Want {
    if let Some(i) = t.find('/') {
        let r = if i == 0 { None } else { Some(t[..i].to_string()) };
        return match refs.get(&(r, t[i + 1..].to_string())) {
            Some(k) => Want::Key(*k),
            None => Want::NotFound,
        };
    }
    let low = t.to_ascii_lowercase();
    let valid = t.starts_with('b') && low[1..].bytes().all(|c| c.is_ascii_lowercase() || (b'2'..=b'7').contains(&c));
    if !valid {
        return Want::Error;
    }
    let hits: BTreeSet<[u8; 32]> = ks.iter().filter(|k| fmt::user_key(k).starts_with(&low)).cloned().collect();
    match hits.len() {
        // More than a full key, or no printed form of any key
        0 if t.len() >= 53 => Want::Error,
        0 => Want::NotFound,
        1 => Want::Key(*hits.iter().next().unwrap()),
        _ => Want::Ambiguous(hits),
    }
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let ds = SqliteDS::new(base.join("x.db")).map_err(|e| Fail::Infra(e.to_string()))?;
    let ks = keys(&c.keys);
    let mut refs = BTreeMap::new();
    for k in &ks {
        if let Err(e) = ds.raw_put(&fmt::dbkey(k), b"x") {
            viol!("put: {}", e);
        }
    }
    for (r, n, k) in &c.refs {
        let k = if ks.is_empty() { [9; 32] } else { ks[*k as usize * ks.len() / 65536] };
        let r = r.map(|r| remote(r).to_string());
        let log = Reflog { refname: name(*n).into(), key: Key::Blake3B(k).into(), remote: r.clone() };
        if let Err(e) = ds.reflog_push(&log) {
            viol!("reflog_push: {}", e);
        }
        refs.insert((r, name(*n).to_string()), k);
    }
    let mut out = Out::default();
    for q in &c.queries {
        let t = text(q, &ks);
        let want = model(&t, &ks, &refs);
        let got = match guard(|| Keyish::from_str(&t).map(|k| ds.canonicalize(k))) {
            Ok(g) => g,
            Err(p) => viol!("{:?} panics: {}", t, p),
        };
        let ok = match (&want, &got) {
            (Want::Key(k), Ok(Ok(Key::Blake3B(g)))) => k == g,
            (Want::Ambiguous(s), Ok(Err(CanonicalizeError::Ambigious(_, v)))) => {
                let g: BTreeSet<[u8; 32]> = v
                    .iter()
                    .map(|k| match k {
                        Key::Blake3B(b) => *b,
                    })
                    .collect();
                g == *s && v.len() == s.len()
            }
            (Want::NotFound, Ok(Err(CanonicalizeError::NotFound(_)))) => true,
            (Want::Error, Err(_)) | (Want::Error, Ok(Err(CanonicalizeError::NotFound(_)))) => true,
            _ => false,
        };
        if !ok {
            let all: Vec<String> = ks.iter().map(fmt::user_key).collect();
            viol!("{:?} resolves to {:?}, expected {:?}; stored {:?}, refs {:?}", t, got, want, all, refs.keys());
        }
        out.label(matches!(want, Want::Ambiguous(_)), "ambiguous");
        out.label(matches!(want, Want::NotFound), "not-found");
        out.label(matches!(want, Want::Error), "rejected");
        out.label(matches!(q, Query::Prefix(_, 1..=51, _)) && matches!(want, Want::Key(_)), "prefix");
        out.label(matches!(q, Query::Ref(..)) && matches!(want, Want::Key(_)), "ref");
        out.nontrivial |= !matches!(want, Want::Error) && !ks.is_empty();
    }
    Ok(out)
}

/// The same through the command line, with real objects.
fn run_cli(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut ks: Vec<[u8; 32]> = vec![];
    let mut out = Out::default();
    let mut objs = fmt::Objs::new();
    let tree = fmt::put_tree(&mut objs, &vc::tree::M::D(BTreeMap::new()));
    for i in 0..20 + c.keys.len() {
        ks.push(fmt::put_commit(&mut objs, tree, &[], &format!("{} {:?}", i, c.keys)));
    }
    // Refs name commits, queries any object.
    let commits = ks.clone();
    for i in 0..20 {
        ks.push(fmt::put(&mut objs, fmt::encode_object(format!("{} {:?}", i, c.keys).as_bytes(), &[], "FileBlob")));
    }
    ks.push(tree);
    {
        let conn = vc::db::open(&r.db())?;
        conn.execute_batch("BEGIN")?;
        for (k, v) in &objs {
            conn.execute("INSERT INTO data VALUES (?, ?)", rusqlite::params![fmt::dbkey(k), **v])?;
        }
        conn.execute_batch("COMMIT")?;
    }
    let mut refs = BTreeMap::new();
    for (rm, n, k) in &c.refs {
        let k = commits[*k as usize * commits.len() / 65536];
        let rm = rm.map(|r| remote(r).to_string());
        let mut a = vec!["debug".to_string(), "reflog-push".into(), "--".into(), fmt::user_key(&k), name(*n).into()];
        a.extend(rm.clone());
        r.must(&a)?;
        refs.insert((rm, name(*n).to_string()), k);
    }
    for q in c.queries.iter().take(6) {
        let t = text(q, &ks);
        if t.contains('\0') {
            continue;
        }
        let want = model(&t, &ks, &refs);
        let o = r.run(&["debug", "pretty-print", "--", &t])?;
        let ok = match &want {
            Want::Key(k) => {
                let full = r.must(&["debug", "pretty-print", "--", &fmt::user_key(k)])?;
                let v = vc::db::load(&r.db())?.objects[&fmt::dbkey(k)].clone();
                let data = fmt::decode_object(&v).map_err(Fail::Infra)?.data;
                let printed: String = full.text();
                let hexed: String = data.chunks(20).map(|c| c.iter().map(|b| format!("{:02x}", b)).collect::<String>() + "\n").collect();
                o.ok() && o.out == full.out && printed.contains(&hexed)
            }
            Want::Ambiguous(_) => !o.ok() && contains(&o.out, b"ambiguous"),
            Want::NotFound => !o.ok() && contains(&o.out, b"not found"),
            Want::Error => !o.ok(),
        };
        if !ok || o.code == Some(101) {
            viol!("pretty-print {:?}: {}, expected {:?}", t, o.brief(), want);
        }
        out.label(matches!(want, Want::Ambiguous(_)), "ambiguous");
        out.nontrivial |= !matches!(want, Want::Error);
    }
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "Stores with chosen keys (sharing any number of leading bits, all zeros, all ones) and ref entries; queries are \
               prefixes of every length in any case, full, bent and absent keys, ref names and arbitrary text, judged against \
               a search over the printed forms. Non-trivial: some query that is not simply malformed, and a key stored.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("library", 12000, 200000, |_: Tier| cases(14), run)),
            Box::new(part("command-line", 120, 2500, |_: Tier| cases(7), run_cli)),
        ],
    }
}
