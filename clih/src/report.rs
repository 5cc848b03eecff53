//! What status and compare print, and what they should.
use crate::tree::M;
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Report {
    pub added: BTreeSet<String>,
    pub deleted: BTreeSet<String>,
    pub modified: BTreeSet<String>,
}

impl Report {
    pub fn is_empty(&self) -> bool {
        *self == Report::default()
    }
}

/// Parses the lists. Lines before the first list are returned.
pub fn parse(text: &str) -> Result<(Vec<String>, Report), String> {
    let mut head = vec![];
    let mut r = Report::default();
    let mut cur: Option<u8> = None;
    let mut done = [false; 3];
    for l in text.split_terminator('\n') {
        let n = match l {
            "added:" => Some(0),
            "deleted:" => Some(1),
            "modified:" => Some(2),
            _ => None,
        };
        if let Some(n) = n {
            if done[n] {
                return Err(format!("list {:?} printed twice", l));
            }
            done[n] = true;
            cur = Some(n as u8);
            continue;
        }
        match (cur, l.strip_prefix("  ")) {
            (None, _) => head.push(l.to_string()),
            (Some(c), Some(p)) => {
                let p = p.strip_suffix('/').unwrap_or(p).to_string();
                let set = match c {
                    0 => &mut r.added,
                    1 => &mut r.deleted,
                    _ => &mut r.modified,
                };
                if !set.insert(p) {
                    return Err(format!("{:?} is listed twice", l));
                }
            }
            _ => return Err(format!("unexpected line {:?}", l)),
        }
    }
    Ok((head, r))
}

/// The differences from `tree` to `work`, whole directories collapsed.
pub fn expected(tree: &M, work: &M) -> Report {
    let mut r = Report::default();
    rec(tree, work, "", &mut r);
    r
}

fn rec(t: &M, w: &M, p: &str, r: &mut Report) {
    let (t, w) = (t.dir(), w.dir());
    let names: BTreeSet<&String> = t.keys().chain(w.keys()).collect();
    for n in names {
        let q = crate::tree::join(p, n);
        match (t.get(n), w.get(n)) {
            (Some(M::F(a)), Some(M::F(b))) => {
                if a != b {
                    r.modified.insert(q);
                }
            }
            (Some(a @ M::D(_)), Some(b @ M::D(_))) => rec(a, b, &q, r),
            (a, b) => {
                if a.is_some() {
                    r.deleted.insert(q.clone());
                }
                if b.is_some() {
                    r.added.insert(q);
                }
            }
        }
    }
}
