//! Exclude patterns, made from the paths of a tree, with an independent matcher.
use crate::tree::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Names that can take part in patterns.
pub fn name_pool() -> BoxedStrategy<String> {
    let pool: Vec<&'static str> = vec![
        "a", "b", "ab", "abc", "a.b", "foo", "foo.txt", "bar.txt", "src", "target", "tmp~", "x.o", "A", "Foo", ".snapcd", ".snapcd2", "db", "db2",
        "snapcd.db", "a b", "*", "[a]", "a?", "{a,b}", "a\\b", "é", "éa", "-x", "!a", "a,b", ".hidden", "..a", "foo.tmp", "a.tmp", ".foo.tmp",
        "foo~", "foo.txt.tmp", "a.part", "a.new",
    ];
    prop_oneof![10 => prop::sample::select(pool).prop_map(|s| s.to_string()), 2 => "[a-c]{1,3}", 1 => "[a-c.]{0,2}[a-c]"]
        .boxed()
}

pub fn content() -> BoxedStrategy<Content> {
    prop_oneof![6 => small_bytes(), 2 => "[ab\n]{0,3}".prop_map(|s| vec![Seg::Text(s)])].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pat {
    pub kind: u8,
    pub which: u16,
    pub other: u16,
    pub at: u8,
}

pub fn pat() -> BoxedStrategy<Pat> {
    (0u8..12, any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(kind, which, other, at)| Pat { kind, which, other, at }).boxed()
}

/// Now and then a lot of them.
pub fn pats(n: usize) -> BoxedStrategy<Vec<Pat>> {
    use proptest::collection::vec;
    prop_oneof![12 => vec(pat(), 1..n), 1 => vec(pat(), 8..40)].boxed()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Lit(Vec<u8>),
    /// `*`
    Any,
    /// `?`
    One,
    Class(bool, Vec<u8>),
    Alt(Vec<Vec<u8>>),
    /// `**/` at the start
    Prefix,
    /// `/**` at the end
    Suffix,
    /// `/**/` in between
    Mid,
}

impl Pat {
    /// The pattern for a walk that starts at a path printed as `base` ("" or ending in '/').
    pub fn tokens(&self, paths: &[String], base: &str) -> Option<Vec<Tok>> {
        use Tok::*;
        let p = pick(paths, self.which)?;
        let b = |s: &str| Lit(s.as_bytes().to_vec());
        let full = format!("{}{}", base, p);
        let nm = p.rsplit('/').next().unwrap().to_string();
        let cut = |s: &str, n: u8| -> usize {
            let mut i = n as usize % (s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        Some(match self.kind {
            0 => vec![b(&full)],
            1 => vec![Prefix, b(&nm)],
            2 => vec![Any, b(&nm[cut(&nm, self.at)..])],
            3 => vec![b(base), b(&p[..cut(&p, self.at)]), Any],
            4 => {
                let i = cut(&p, self.at);
                let j = i + cut(&p[i..], self.other as u8);
                vec![b(base), Any, b(&p[i..j]), Any]
            }
            5 | 6 | 7 => {
                let bytes = p.as_bytes();
                let i = self.at as usize % bytes.len();
                if !bytes[i].is_ascii() {
                    return None;
                }
                let t = match self.kind {
                    5 => One,
                    6 => Class(false, vec![bytes[i], b'_', b'b']),
                    _ => Class(true, vec![if bytes[i] == b'q' { b'r' } else { b'q' }, b'z']),
                };
                vec![b(base), Lit(bytes[..i].to_vec()), t, Lit(bytes[i + 1..].to_vec())]
            }
            8 => {
                let q = pick(paths, self.other)?;
                vec![b(base), Alt(vec![p.into_bytes(), q.into_bytes()])]
            }
            9 => vec![b(&full), Suffix],
            10 => vec![b(base.strip_suffix('/')?), Mid, b(&nm)],
            _ => vec![Prefix, b(&nm), Mid, b(&nm)],
        })
    }
}

fn escape(l: &[u8], out: &mut Vec<u8>, inner: bool) {
    for c in l {
        // A comma and a closing bracket mean something only within what was opened.
        if b"*?[{}\\".contains(c) || (inner && b",]".contains(c)) {
            out.push(b'\\');
        }
        out.push(*c);
    }
}

pub fn print(t: &[Tok]) -> String {
    let mut o = vec![];
    for x in t {
        match x {
            Tok::Lit(l) => escape(l, &mut o, false),
            Tok::Any => o.push(b'*'),
            Tok::One => o.push(b'?'),
            Tok::Class(n, cs) => {
                o.push(b'[');
                if *n {
                    o.push(b'!');
                }
                // ']' comes first, '-' last, '!' and '^' not first
                let mut cs = cs.clone();
                cs.sort_by_key(|c| match c {
                    b']' => 0,
                    b'!' | b'^' => 2,
                    b'-' => 3,
                    _ => 1,
                });
                o.extend(cs);
                o.push(b']');
            }
            Tok::Alt(v) => {
                o.push(b'{');
                for (i, a) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(b',');
                    }
                    escape(a, &mut o, true);
                }
                o.push(b'}');
            }
            Tok::Prefix => o.extend(b"**/"),
            Tok::Suffix => o.extend(b"/**"),
            Tok::Mid => o.extend(b"/**/"),
        }
    }
    String::from_utf8(o).unwrap()
}

pub fn matches(t: &[Tok], s: &[u8]) -> bool {
    let (x, rest) = match t.split_first() {
        None => return s.is_empty(),
        Some(x) => x,
    };
    let lit = |l: &[u8]| s.starts_with(l) && matches(rest, &s[l.len()..]);
    let after_slash = |from: usize| (from..s.len()).any(|i| s[i] == b'/' && matches(rest, &s[i + 1..]));
    match x {
        Tok::Lit(l) => lit(l),
        Tok::Any => (0..=s.len()).any(|i| matches(rest, &s[i..])),
        Tok::One => !s.is_empty() && matches(rest, &s[1..]),
        Tok::Class(n, cs) => !s.is_empty() && cs.contains(&s[0]) != *n && matches(rest, &s[1..]),
        Tok::Alt(v) => v.iter().any(|l| lit(l)),
        Tok::Prefix => matches(rest, s) || after_slash(0),
        Tok::Suffix => s.is_empty() || s[0] == b'/',
        Tok::Mid => !s.is_empty() && s[0] == b'/' && (matches(rest, &s[1..]) || after_slash(1)),
    }
}

/// Which paths (relative to the start of the walk) are excluded.
pub struct Excl {
    pub pats: Vec<Vec<Tok>>,
    pub base: String,
    /// Path of the repository folder relative to the start of the walk
    pub db: Option<String>,
}

impl Excl {
    pub fn hit(&self, rel: &str) -> bool {
        if let Some(d) = &self.db {
            if rel == d || rel.strip_prefix(d.as_str()).map(|x| x.starts_with('/')).unwrap_or(false) {
                return true;
            }
        }
        let s = format!("{}{}", self.base, rel);
        self.pats.iter().any(|t| matches(t, s.as_bytes()))
    }
    /// Without what is excluded and all below that.
    pub fn strip(&self, m: &M) -> M {
        self.rec(m, "")
    }
    fn rec(&self, m: &M, at: &str) -> M {
        match m {
            M::F(_) => m.clone(),
            M::D(d) => M::D(
                d.iter()
                    .filter_map(|(n, c)| {
                        let q = join(at, n);
                        if self.hit(&q) {
                            None
                        } else {
                            Some((n.clone(), self.rec(c, &q)))
                        }
                    })
                    .collect::<BTreeMap<_, _>>(),
            ),
        }
    }
    /// The topmost excluded paths of a tree.
    pub fn tops(&self, m: &M) -> Vec<String> {
        fn rec(x: &Excl, m: &M, at: &str, v: &mut Vec<String>) {
            if let M::D(d) = m {
                for (n, c) in d {
                    let q = join(at, n);
                    if x.hit(&q) {
                        v.push(q);
                    } else {
                        rec(x, c, &q, v);
                    }
                }
            }
        }
        let mut v = vec![];
        rec(self, m, "", &mut v);
        v
    }
}

/// The arguments and their meaning for a walk printed with `base`.
pub fn resolve(pats: &[Pat], paths: &[String], base: &str, db: Option<String>) -> (Vec<String>, Excl) {
    let mut args = vec![];
    let mut toks = vec![];
    for p in pats {
        if let Some(t) = p.tokens(paths, base) {
            let s = print(&t);
            // The glob library does not find names that end in a dot by patterns that end in one.
            if s.is_empty() || s.ends_with('.') {
                continue;
            }
            args.push(format!("--exclude={}", s));
            toks.push(t);
        }
    }
    (args, Excl { pats: toks, base: base.to_string(), db })
}
