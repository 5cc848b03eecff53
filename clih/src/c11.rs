//! C11: patches and line counts describe a change exactly.
use crate::{cli::*, db, report, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

const LINES: &[&str] = &[
    "", "a", "b", "c", "d", " ", "x y", "-", "+", "- a", "+a", "--- f", "+++ f", "@@ -1,1 +1,1 @@", "\\ No newline at end of file",
    "\t", "é", "日本", "a\rb", "--", "diff", "# c", "{}", "\"q\"",
    "a\0b", "\0",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Tree(Edit),
    /// In one file: at a place, so many lines replaced by others
    Lines(u16, u16, u8, Vec<u8>),
    /// Final line feed added or removed
    Final(u16),
    /// All lines of a file move
    Rotate(u16, u8),
    Binary(u16),
    Crlf(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Node,
    rounds: Vec<Vec<Change>>,
}

fn line(i: u8) -> &'static str {
    LINES[i as usize % LINES.len()]
}

fn text(v: &[u8], end: bool) -> Content {
    let mut s = v.iter().map(|i| line(*i)).collect::<Vec<_>>().join("\n");
    if end && !v.is_empty() {
        s.push('\n');
    }
    vec![Seg::Text(s)]
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        4 => (vec(0u8..5, 0..8), any::<bool>()).prop_map(|(v, e)| text(&v, e)),
        4 => (vec(any::<u8>(), 10..70), any::<bool>()).prop_map(|(v, e)| text(&v, e)),
        2 => (10usize..60, any::<u8>(), any::<bool>()).prop_map(|(n, l, e)| text(&(0..n).map(|i| (i as u8).wrapping_mul(l | 1)).collect::<Vec<_>>(), e)),
        1 => (100usize..900, 1u8..60, any::<bool>()).prop_map(|(n, m, e)| {
            let mut s: String = (0..n).map(|i| format!("{}{}\n", line((i % m as usize) as u8), if i % 3 == 0 { i } else { 0 })).collect();
            if !e {
                s.pop();
            }
            vec![Seg::Text(s)]
        }),
        1 => Just(vec![]),
        1 => "\\PC{0,20}".prop_map(|s| vec![Seg::Text(s)]),
    ]
    .boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        9 => (any::<u16>(), any::<u16>(), 0u8..4, vec(any::<u8>(), 0..4)).prop_map(|(f, a, n, v)| Change::Lines(f, a, n, v)),
        2 => edit(content()).prop_map(Change::Tree),
        1 => any::<u16>().prop_map(Change::Final),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(f, n)| Change::Rotate(f, n)),
    ]
    .boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    // Bytes that are no text, in files that come and go
    let bytes = vec(prop_oneof![3 => Just(b'\n'), 1 => Just(0u8), 5 => any::<u8>()], 0..40).prop_map(|b| vec![Seg::Bytes(b)]).boxed();
    let odd = prop_oneof![3 => any::<u16>().prop_map(Change::Crlf), 2 => any::<u16>().prop_map(Change::Binary), 2 => edit(bytes).prop_map(Change::Tree)];
    let round = prop_oneof![
        8 => vec(change(), 1..6),
        1 => (vec(change(), 0..3), odd).prop_map(|(mut v, o)| { v.push(o); v }),
    ];
    (tree_with(content(), name(), 2, 3), vec(round, 1..4)).prop_map(|(base, rounds)| Case { base, rounds }).boxed()
}

/// Files of more lines and bytes than are likely to be held in one piece.
fn large(_: Tier) -> BoxedStrategy<Case> {
    let big = (400usize..2600, 1u8..60, 0usize..90, any::<bool>())
        .prop_map(|(n, m, w, e)| {
            let mut s: String = (0..n)
                .map(|i| format!("{}{}{}\n", line((i % m as usize) as u8), if i % 3 == 0 { i } else { 0 }, " pad".repeat(if i % 7 == 0 { 0 } else { w / 4 })))
                .collect();
            if !e {
                s.pop();
            }
            vec![Seg::Text(s)]
        })
        .boxed();
    let change = prop_oneof![
        9 => (any::<u16>(), prop_oneof![any::<u16>(), 65000u16..=65535, 0u16..300], 0u8..4, vec(any::<u8>(), 0..4))
            .prop_map(|(f, a, n, v)| Change::Lines(f, a, n, v)),
        2 => edit(big.clone()).prop_map(Change::Tree),
        1 => any::<u16>().prop_map(Change::Final),
    ]
    .boxed();
    (vec(big, 1..3), vec(vec(change, 1..5), 1..3))
        .prop_map(|(fs, rounds)| Case { base: Node::D(fs.into_iter().enumerate().map(|(i, c)| (format!("big{}", i), Node::F(c))).collect()), rounds })
        .boxed()
}

fn apply(m: &mut M, c: &Change) {
    let files: Vec<String> = m.files().into_iter().map(|x| x.0).collect();
    let edit_file = |m: &mut M, n: u16, f: &dyn Fn(Vec<u8>) -> Vec<u8>| {
        if let Some(p) = pick(&files, n) {
            if let Some(M::F(b)) = m.get(&p).cloned() {
                m.put(&p, M::F(Arc::new(f(b.to_vec()))));
            }
        }
    };
    match c {
        Change::Tree(e) => apply_edit(m, e),
        Change::Lines(f, at, n, v) => edit_file(m, *f, &|b| {
            let mut ls: Vec<Vec<u8>> = if b.is_empty() { vec![] } else { b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect() };
            let i = *at as usize * (ls.len() + 1) / 65536;
            let j = (i + *n as usize).min(ls.len());
            ls.splice(i..j, v.iter().map(|x| line(*x).as_bytes().to_vec()));
            ls.join(&b'\n')
        }),
        Change::Final(f) => edit_file(m, *f, &|mut b| {
            if b.last() == Some(&b'\n') {
                b.pop();
            } else {
                b.push(b'\n');
            }
            b
        }),
        Change::Rotate(f, n) => edit_file(m, *f, &|b| {
            let mut ls: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
            let l = ls.len();
            ls.rotate_left(*n as usize % l);
            ls.join(&b'\n')
        }),
        Change::Crlf(f) => edit_file(m, *f, &|b| {
            let s = String::from_utf8_lossy(&b).into_owned();
            if s.contains("\r\n") { s.replace("\r\n", "\n") } else { s.replace('\n', "\r\n") }.into_bytes()
        }),
        Change::Binary(f) => edit_file(m, *f, &|mut b| {
            b.extend_from_slice(&[0xff, b'\n']);
            b
        }),
    }
}

pub fn added_lines(s: &str) -> Vec<&str> {
    s.split_terminator('\n').collect()
}
pub fn mod_lines(s: &str) -> Vec<&str> {
    if s.is_empty() {
        vec![]
    } else {
        s.split('\n').collect()
    }
}

/// Number of lines added and removed of a modified file, minimal.
pub fn counts(a: &[u8], b: &[u8]) -> (usize, usize) {
    let (sa, sb) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    let (la, lb): (Vec<&str>, Vec<&str>) = (sa.lines().collect(), sb.lines().collect());
    // What both begin and end with is common.
    let pre = la.iter().zip(&lb).take_while(|(a, b)| a == b).count();
    let (la, lb) = (&la[pre..], &lb[pre..]);
    let post = la.iter().rev().zip(lb.iter().rev()).take_while(|(a, b)| a == b).count();
    let (la, lb) = (&la[..la.len() - post], &lb[..lb.len() - post]);
    let mut t = vec![vec![0u32; lb.len() + 1]; la.len() + 1];
    for i in 0..la.len() {
        for j in 0..lb.len() {
            t[i + 1][j + 1] = if la[i] == lb[j] { t[i][j] + 1 } else { t[i][j + 1].max(t[i + 1][j]) };
        }
    }
    let l = t[la.len()][lb.len()] as usize;
    let (mut add, mut rem) = (lb.len() - l, la.len() - l);
    // What follows the last line feed is a last, empty line.
    match (sa.ends_with('\n'), sb.ends_with('\n')) {
        (true, false) => rem += 1,
        (false, true) => add += 1,
        _ => {}
    }
    (add, rem)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    Added,
    Deleted,
    Modified,
}

/// File level changes from one tree to another.
pub fn changes(old: &M, new: &M) -> BTreeMap<(String, Kind), (Option<Arc<Vec<u8>>>, Option<Arc<Vec<u8>>>)> {
    let a: BTreeMap<_, _> = old.files().into_iter().collect();
    let b: BTreeMap<_, _> = new.files().into_iter().collect();
    let mut m = BTreeMap::new();
    for (p, x) in &a {
        match b.get(p) {
            None => {
                m.insert((p.clone(), Kind::Deleted), (Some(x.clone()), None));
            }
            Some(y) if x != y => {
                m.insert((p.clone(), Kind::Modified), (Some(x.clone()), Some(y.clone())));
            }
            _ => {}
        }
    }
    for (p, y) in &b {
        if !a.contains_key(p) {
            m.insert((p.clone(), Kind::Added), (None, Some(y.clone())));
        }
    }
    m
}

pub fn stat_lines(old: &M, new: &M) -> Vec<String> {
    let mut v: Vec<String> = changes(old, new)
        .into_iter()
        .map(|((p, k), (a, b))| {
            let nl = |x: &Option<Arc<Vec<u8>>>| x.as_ref().unwrap().iter().filter(|c| **c == b'\n').count();
            let (x, y) = match k {
                Kind::Added => (nl(&b), 0),
                Kind::Deleted => (0, nl(&a)),
                Kind::Modified => counts(a.as_ref().unwrap(), b.as_ref().unwrap()),
            };
            format!("{}  +{} -{}", p, x, y)
        })
        .collect();
    v.sort();
    v
}

fn unquote(s: &str) -> Result<String, String> {
    if !s.starts_with('"') {
        return Ok(s.to_string());
    }
    let inner = s.strip_prefix('"').and_then(|x| x.strip_suffix('"')).ok_or_else(|| format!("bad quoting {}", s))?;
    let mut r = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            r.push(match it.next() {
                Some('n') => '\n',
                Some('t') => '\t',
                Some('r') => '\r',
                Some('0') => '\0',
                Some(x @ '"') | Some(x @ '\\') => x,
                x => return Err(format!("bad escape {:?}", x)),
            });
        } else if c == '"' {
            return Err("stray quote".into());
        } else {
            r.push(c);
        }
    }
    Ok(r)
}

pub struct Hunk {
    old: (usize, usize),
    new: (usize, usize),
    lines: Vec<(u8, String)>,
}

pub struct Patch {
    path: String,
    hunks: Vec<Hunk>,
}

/// Strict: every line belongs to a header or is counted by a hunk.
pub fn parse(text: &str) -> Result<Vec<Patch>, String> {
    let ls: Vec<&str> = text.split('\n').collect();
    let mut i = 0;
    let mut v = vec![];
    let range = |s: &str, sign: char| -> Result<(usize, usize), String> {
        let s = s.strip_prefix(sign).ok_or_else(|| format!("bad range {:?}", s))?;
        let (a, b) = match s.find(',') {
            Some(i) => (&s[..i], &s[i + 1..]),
            None => (s, "1"),
        };
        Ok((a.parse().map_err(|_| format!("bad range {:?}", s))?, b.parse().map_err(|_| format!("bad range {:?}", s))?))
    };
    while i < ls.len() {
        if ls[i].is_empty() {
            i += 1;
            continue;
        }
        let p = ls[i].strip_prefix("--- ").ok_or_else(|| format!("line {}: expected a file header, got {:?}", i + 1, ls[i]))?;
        let q = ls.get(i + 1).and_then(|l| l.strip_prefix("+++ ")).ok_or_else(|| format!("line {}: expected +++", i + 2))?;
        let (p, q) = (unquote(p)?, unquote(q)?);
        if p != q {
            return Err(format!("header names {:?} and {:?}", p, q));
        }
        i += 2;
        let mut hunks = vec![];
        while i < ls.len() && ls[i].starts_with("@@ ") {
            let body = ls[i].strip_prefix("@@ ").unwrap().strip_suffix(" @@").ok_or_else(|| format!("line {}: {:?}", i + 1, ls[i]))?;
            let w: Vec<&str> = body.split(' ').collect();
            if w.len() != 2 {
                return Err(format!("line {}: {:?}", i + 1, ls[i]));
            }
            let (old, new) = (range(w[0], '-')?, range(w[1], '+')?);
            i += 1;
            let (mut a, mut b) = (0, 0);
            let mut lines = vec![];
            while a < old.1 || b < new.1 {
                let l = ls.get(i).ok_or("hunk is cut short")?;
                let c = *l.as_bytes().first().ok_or_else(|| format!("line {}: empty line within a hunk", i + 1))?;
                match c {
                    b' ' => {
                        a += 1;
                        b += 1;
                    }
                    b'-' => a += 1,
                    b'+' => b += 1,
                    _ => return Err(format!("line {}: {:?} within a hunk", i + 1, l)),
                }
                lines.push((c, l[1..].to_string()));
                i += 1;
            }
            if a != old.1 || b != new.1 {
                return Err(format!("hunk {:?} {:?} has {} old and {} new lines", old, new, a, b));
            }
            hunks.push(Hunk { old, new, lines });
        }
        v.push(Patch { path: p, hunks });
    }
    Ok(v)
}

pub fn apply_patch(p: &Patch, old: &[&str]) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = vec![];
    let mut at = 0;
    for h in &p.hunks {
        // An empty range names the line before it.
        let start = |r: (usize, usize)| if r.1 == 0 { Ok(r.0) } else { r.0.checked_sub(1).ok_or("line number 0") };
        let s = start(h.old)?;
        if s < at || s > old.len() {
            return Err(format!("hunk at {:?}, but {} of {} lines are done", h.old, at, old.len()));
        }
        out.extend(old[at..s].iter().map(|x| x.to_string()));
        at = s;
        if start(h.new)? != out.len() {
            return Err(format!("hunk goes to {:?}, but {} new lines precede it", h.new, out.len()));
        }
        for (c, l) in &h.lines {
            if *c != b'+' {
                if old.get(at).map(|x| *x != l).unwrap_or(true) {
                    return Err(format!("line {} is {:?}, the patch has {:?}", at + 1, old.get(at), l));
                }
                at += 1;
            }
            if *c != b'-' {
                out.push(l.clone());
            }
        }
    }
    out.extend(old[at..].iter().map(|x| x.to_string()));
    Ok(out)
}

/// Judges the patch text of a change.
pub fn judge_patch(text: &str, old: &M, new: &M) -> Result<(), String> {
    let want = changes(old, new);
    let ps = parse(text)?;
    let mut left = want.clone();
    for p in &ps {
        let mut errs = vec![];
        let mut hit = None;
        for k in [Kind::Added, Kind::Deleted, Kind::Modified] {
            if let Some((a, b)) = left.get(&(p.path.clone(), k)) {
                let s = |x: &Option<Arc<Vec<u8>>>| x.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                let (a, b) = (s(a), s(b));
                let split = if k == Kind::Modified { mod_lines } else { added_lines };
                match apply_patch(p, &split(&a)) {
                    Ok(r) if r == split(&b) => hit = Some(k),
                    Ok(r) => errs.push(format!("{:?}: gives {:?}, expected {:?}", k, r, split(&b))),
                    Err(e) => errs.push(format!("{:?}: {}", k, e)),
                }
            }
            if hit.is_some() {
                break;
            }
        }
        match hit {
            Some(k) => {
                left.remove(&(p.path.clone(), k));
            }
            None => return Err(format!("patch of {:?}: {:?} (changes: {:?})", p.path, errs, want.keys())),
        }
    }
    if !left.is_empty() {
        return Err(format!("no patch for {:?}", left.keys()));
    }
    Ok(())
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let mut hist: Vec<(String, M, String)> = vec![];
    let mut work = crate::c09::no_db(model(&c.base));
    sync_tree(&r.root, &work, &[".snapcd"])?;
    r.must(&["commit", "-m", "m0"])?;
    hist.push((db::load(&r.db())?.log("master", None)[0].clone(), work.clone(), "m0".into()));
    for (i, cs) in c.rounds.iter().enumerate() {
        for ch in cs {
            apply(&mut work, ch);
        }
        work = crate::c09::no_db(work);
        sync_tree(&r.root, &work, &[".snapcd"])?;
        let prev = hist.last().unwrap().1.clone();
        let o = r.must(&["compare", "--stat"])?;
        let want = stat_lines(&prev, &work);
        if sorted(o.lines()) != want {
            viol!("compare --stat prints {:?}, expected {:?}\nold {:?}\nnew {:?}", o.lines(), want, prev, work);
        }
        let msg = format!("m{}", i + 1);
        r.must(&["commit", "-m", &msg])?;
        hist.push((db::load(&r.db())?.log("master", None)[0].clone(), work.clone(), msg));
    }
    let mut log = String::new();
    for (i, (k, new, msg)) in hist.iter().enumerate().rev() {
        let old = if i == 0 { M::empty() } else { hist[i - 1].1.clone() };
        let ch = changes(&old, new);
        let binary = ch.values().any(|(a, b)| {
            [a, b].iter().any(|x| x.as_ref().map(|v| std::str::from_utf8(v).is_err()).unwrap_or(false))
        });
        let o = r.run(&["show", k])?;
        if binary {
            if o.ok() {
                viol!("show of a commit with a file that is not text succeeds: {}", o.brief());
            }
        } else {
            if !o.ok() {
                viol!("show fails: {}; changes {:?}", o.brief(), ch.keys());
            }
            let head = format!("commit: {}\n\n{}\n\n", k, msg);
            let t = match std::str::from_utf8(&o.out) {
                Ok(t) => t,
                Err(e) => viol!("show prints invalid text: {}", e),
            };
            let t = match t.strip_prefix(&head[..]) {
                Some(t) => t,
                None => viol!("show prints {}, expected {:?} first", o.brief(), head),
            };
            if let Err(e) = judge_patch(t, &old, new) {
                viol!("{}\nold {:?}\nnew {:?}\npatch:\n{}", e, old, new, t);
            }
        }
        log += &format!("commit: {}\n\n{}\n\n", k, msg);
        for l in stat_lines(&old, new) {
            log += &l;
            log.push('\n');
        }
        log += "\n\n";
        let m = ch.keys().filter(|x| x.1 == Kind::Modified && i > 0).count();
        out.nontrivial |= m > 0 && !binary;
        out.label(m > 0, "modified");
        out.label(t_hunks(&o) > ch.len() as usize, "several-hunks");
        out.label(binary, "binary");
        out.label(ch.values().any(|(a, b)| [a, b].iter().any(|x| x.as_ref().map(|v| v.len() > 65536).unwrap_or(false))), "changed file over 64 KiB");
        out.label(ch.keys().any(|x| x.1 == Kind::Deleted), "deleted");
    }
    let o = r.must(&["log"])?;
    if norm(&o.text()) != norm(&log) {
        viol!("log prints {:?}, expected {:?}", o.text(), log);
    }
    let _ = report::parse;
    Ok(out)
}

fn t_hunks(o: &O) -> usize {
    o.lines().iter().filter(|l| l.starts_with("@@ ")).count()
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// Stat lines of one commit in any order.
fn norm(s: &str) -> Vec<Vec<String>> {
    s.split("\n\n").map(|b| sorted(b.split('\n').map(|x| x.to_string()).collect())).collect()
}

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "Generated histories of commits: line edits in short and long files (up to a few hundred KiB; multiple hunks, repeated lines, lines that \
               look like patch syntax, changes at the last line, CR), files and directories added, deleted and replaced, \
               files that are no text. show is parsed strictly and applied; compare --stat and log against independent \
               counts. Non-trivial: some file is modified and the patch is shown.",
        assumptions: vec![
            "for the statistics, CR before LF is part of the line end; added and deleted files count their line feeds",
        ],
        parts: vec![
            Box::new(part("patches", 1300, 22000, cases, run)),
            Box::new(part("large files", 40, 600, large, run)),
        ],
    }
}
