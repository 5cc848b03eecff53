//! C24: files that change while a command reads them.
use crate::{c17::{Proc, W}, cli::*, db, fault::copy_dir, fmt, report, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::Write;
use std::path::{Path, PathBuf};

/// What another program does. Every one of these takes effect at once.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ch {
    /// A file is replaced by another one
    Replace(Content),
    Append(Content),
    Remove,
    /// Whatever is there is moved away and something else put in its place
    Other(Node),
    /// Something new next to it
    New(String, Node),
    /// Moved to a new name in some directory
    Move(u16, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Racer {
    Commit,
    Insert(u16),
    Status,
    Compare,
    CheckoutHead,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stop {
    at: u16,
    /// What is changed: a path by number, or what the command is about to look at
    to: Vec<(Option<u16>, Ch)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Node,
    rounds: Vec<(Vec<Edit>, Racer, Vec<Stop>)>,
    /// 1: the files are old enough to be cached, 2: and are in the cache. This takes some seconds.
    settle: u8,
    /// Links to some files that never change, which are pointed elsewhere instead of being changed
    links: Vec<u8>,
}

const K_OPEN: u8 = 1;
const LINKS: &str = "zz-links";
const TARGETS: &str = "zz-targets";

fn own(q: &str) -> bool {
    q.starts_with(LINKS) || q.starts_with(TARGETS)
}

fn target(n: u8) -> (String, Vec<u8>) {
    (format!("t{}", n % 3), format!("target {}", n % 3).repeat(1 + n as usize % 3).into_bytes())
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => small_bytes(),
        2 => (any::<u32>(), 8000u32..30000).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
    ]
    .boxed()
}

fn change() -> BoxedStrategy<Ch> {
    let node = || prop_oneof![2 => content().prop_map(Node::F), 1 => tree_with(content(), name(), 1, 2)];
    prop_oneof![
        4 => content().prop_map(Ch::Replace),
        4 => content().prop_map(Ch::Append),
        2 => Just(Ch::Remove),
        2 => node().prop_map(Ch::Other),
        2 => (name(), node()).prop_map(|(n, c)| Ch::New(n, c)),
        1 => (any::<u16>(), name()).prop_map(|(d, n)| Ch::Move(d, n)),
    ]
    .boxed()
}

fn cases(slow: bool) -> impl Fn(Tier) -> BoxedStrategy<Case> + Sync + Send {
    move |_| {
        let stop = (any::<u16>(), vec((prop::option::weighted(0.4, any::<u16>()), change()), 1..3)).prop_map(|(at, to)| Stop { at, to });
        let racer = prop_oneof![
            4 => Just(Racer::Commit),
            2 => Just(Racer::Insert(65535)),
            1 => any::<u16>().prop_map(Racer::Insert),
            2 => Just(Racer::Status),
            1 => Just(Racer::Compare),
            1 => Just(Racer::CheckoutHead),
        ];
        let racer = if slow { prop_oneof![1 => racer, 2 => Just(Racer::Status), 1 => Just(Racer::Compare)].boxed() } else { racer.boxed() };
        let round = (vec(edit(content()), 0..3), racer, vec(stop, 1..4));
        let links = || vec(any::<u8>(), 1..4);
        let empty = Just(Node::D(Default::default()));
        let tree = if slow { prop_oneof![tree_with(content(), name(), 2, 3), empty].boxed() } else { tree_with(content(), name(), 2, 4) };
        let links = if slow { links().boxed() } else { prop_oneof![4 => Just(vec![]), 1 => links()].boxed() };
        (tree, vec(round, 1..5), any::<bool>(), links)
            .prop_map(move |(base, rounds, warm, links)| Case { base, rounds, settle: if slow { 1 + warm as u8 } else { 0 }, links })
            .boxed()
    }
}

/// The working directory, and how it has been since the command began.
struct World {
    root: PathBuf,
    aside: PathBuf,
    n: usize,
    /// How far along the command is, to choose where links lead
    turn: u8,
    now: M,
    states: Vec<M>,
}

impl World {
    fn note(&mut self) {
        self.states.push(self.now.clone());
    }
    fn away(&mut self, q: &str) -> Result<(), Fail> {
        self.n += 1;
        std::fs::rename(self.root.join(q), self.aside.join(format!("old{}", self.n)))?;
        self.now.remove(q);
        self.note();
        Ok(())
    }
    fn place(&mut self, q: &str, m: &M) -> Result<(), Fail> {
        self.n += 1;
        let t = self.aside.join(format!("new{}", self.n));
        write_tree(&t, m)?;
        std::fs::rename(&t, self.root.join(q))?;
        self.now.put(q, m.clone());
        self.note();
        Ok(())
    }
    fn change(&mut self, q: &str, c: &Ch) -> Result<(), Fail> {
        let at = match self.now.get(q) {
            Some(m) => m.clone(),
            None => return Ok(()),
        };
        let parent = q.rsplitn(2, '/').nth(1).unwrap_or("").to_string();
        if own(q) {
            if parent == LINKS {
                self.turn = self.turn.wrapping_add(1);
                return self.link(q, self.turn);
            }
            return Ok(());
        }
        match (c, &at) {
            (Ch::Replace(c), M::F(_)) => self.place(q, &M::F(std::sync::Arc::new(expand(c))))?,
            (Ch::Append(c), M::F(b)) => {
                let add = expand(c);
                std::fs::OpenOptions::new().append(true).open(self.root.join(q))?.write_all(&add)?;
                let mut b = b.to_vec();
                b.extend(add);
                self.now.put(q, M::file(&b));
                self.note();
            }
            (Ch::Remove, _) => self.away(q)?,
            (Ch::Other(n), _) => {
                self.away(q)?;
                self.place(q, &model(n))?;
            }
            (Ch::New(n, m), _) => {
                let d = if at.is_dir() { q.to_string() } else { parent };
                let q = join(&d, n);
                if n != ".snapcd" && self.now.get(&q).is_none() {
                    self.place(&q, &model(m))?;
                }
            }
            (Ch::Move(d, n), _) => {
                let dirs: Vec<String> =
                    self.now.dirs().into_iter().filter(|x| *x != q && !x.starts_with(&format!("{}/", q)) && !own(x)).collect();
                let d = pick(&dirs, *d).unwrap_or_default();
                let t = join(&d, n);
                if n != ".snapcd" && self.now.get(&t).is_none() {
                    std::fs::rename(self.root.join(q), self.root.join(&t))?;
                    self.now.remove(q);
                    self.now.put(&t, at);
                    self.note();
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn link(&mut self, q: &str, n: u8) -> Result<(), Fail> {
        self.n += 1;
        let t = self.aside.join(format!("link{}", self.n));
        let (name, content) = target(n);
        std::os::unix::fs::symlink(Path::new("..").join(TARGETS).join(name), &t)?;
        std::fs::rename(&t, self.root.join(q))?;
        self.now.put(q, M::file(&content));
        self.note();
        Ok(())
    }
    /// What was at a path at the different moments.
    fn versions(&self, q: &str) -> Vec<Option<&M>> {
        self.states.iter().map(|s| s.get(q)).collect()
    }
}

fn kind_eq(a: Option<&M>, b: Option<&M>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(M::D(_)), Some(M::D(_))) => true,
        (Some(M::F(x)), Some(M::F(y))) => x == y,
        _ => false,
    }
}

/// Whether a stored tree is made of what there was. `sub`: where it begins.
fn judge_stored(w: &World, sub: &str, got: &M, what: &str) -> Result<(), Fail> {
    let mut all: BTreeSet<String> = BTreeSet::new();
    for s in w.states.iter().filter_map(|s| s.get(sub)) {
        all.extend(s.paths().into_iter().map(|x| x.0));
    }
    all.extend(got.paths().into_iter().map(|x| x.0));
    all.insert(String::new());
    for q in &all {
        let full = if q.is_empty() { sub.to_string() } else { join(sub, q) };
        let vs = w.versions(&full);
        match got.get(q) {
            Some(m) => {
                if !vs.iter().any(|v| kind_eq(*v, Some(m))) {
                    viol!("{}: stores {:?} as {:?}, which was at no moment like that: {:?}", what, full, m, vs);
                }
            }
            None => {
                if vs.iter().all(|v| v.is_some()) {
                    // Left out only along with something above it
                    viol!("{}: leaves out {:?}, which was there at all times; stored {:?}", what, full, got);
                }
            }
        }
    }
    Ok(())
}

fn judge_listed(w: &World, tree: &M, rep: &report::Report, what: &str) -> Result<(), Fail> {
    let mut all: BTreeSet<String> = tree.paths().into_iter().map(|x| x.0).collect();
    for s in &w.states {
        all.extend(s.paths().into_iter().map(|x| x.0));
    }
    for q in rep.added.iter().chain(&rep.deleted).chain(&rep.modified) {
        if !all.contains(q) {
            viol!("{}: lists {:?}, which was never there", what, q);
        }
    }
    for q in &all {
        let up = q.rsplitn(2, '/').nth(1).unwrap_or("");
        let always_dir = |p: &str| tree.get(p).map(|m| m.is_dir()).unwrap_or(false) && w.versions(p).iter().all(|v| v.map(|m| m.is_dir()).unwrap_or(false));
        let mut p = up;
        let mut plain = true;
        loop {
            plain &= always_dir(p);
            if p.is_empty() {
                break;
            }
            p = p.rsplitn(2, '/').nth(1).unwrap_or("");
        }
        let t = tree.get(q);
        let vs = w.versions(q);
        if !plain || t.map(|m| m.is_dir()).unwrap_or(false) || vs.iter().any(|v| v.map(|m| m.is_dir()).unwrap_or(false)) {
            continue;
        }
        let got = (rep.added.contains(q), rep.deleted.contains(q), rep.modified.contains(q));
        let ok = vs.iter().any(|v| {
            got == match (t, *v) {
                (None, None) => (false, false, false),
                (None, Some(_)) => (true, false, false),
                (Some(_), None) => (false, true, false),
                (Some(a), Some(b)) => (false, false, a != b),
            }
        });
        if !ok {
            viol!("{}: {:?} is listed as (added, deleted, modified) {:?}; it was {:?} at the different moments and is {:?} in the tree", what, q, got, vs, t);
        }
    }
    Ok(())
}

fn hash(p: &Path) -> u32 {
    use std::os::unix::ffi::OsStrExt;
    p.as_os_str().as_bytes().iter().fold(2166136261u32, |h, b| (h ^ *b as u32).wrapping_mul(16777619))
}

fn head_tree(d: &db::Db) -> Result<Option<M>, Fail> {
    let c = match d.log(&d.head().unwrap_or_default(), None).first() {
        Some(c) => c.clone(),
        None => return Ok(None),
    };
    let objs = fmt::fsck(d).map_err(|e| Fail::Violation(e))?;
    let k = fmt::parse_key(&c).unwrap();
    Ok(Some(fmt::read_model(&objs, &objs[&k].keys[0]).map_err(Fail::Violation)?))
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let aside = base.join("aside");
    std::fs::create_dir(&aside)?;
    let skip = &[".snapcd", LINKS, TARGETS][..];
    let mut work = model(&c.base);
    for n in skip {
        work.dir_mut().remove(*n);
    }
    sync_tree(&r.root, &work, skip)?;
    if !c.links.is_empty() {
        for i in 0..3 {
            let (n, b) = target(i);
            work.put(&format!("{}/{}", TARGETS, n), M::file(&b));
        }
        write_tree(&r.root.join(TARGETS), work.get(TARGETS).unwrap())?;
        std::fs::create_dir(r.root.join(LINKS))?;
        for (i, l) in c.links.iter().enumerate() {
            let (n, b) = target(*l);
            std::os::unix::fs::symlink(Path::new("..").join(TARGETS).join(n), r.root.join(LINKS).join(format!("{}", i)))?;
            work.put(&format!("{}/{}", LINKS, i), M::file(&b));
        }
    }
    r.must(&["commit", "-m", "base"])?;
    if c.settle > 0 {
        std::thread::sleep(std::time::Duration::from_millis(3100));
    }
    if c.settle > 1 {
        r.must(&["status"])?;
    }
    let mut n = 0;
    for (edits, racer, stops) in &c.rounds {
        let mine: Vec<(&str, M)> = [LINKS, TARGETS].iter().filter_map(|n| Some((*n, work.remove(n)?))).collect();
        for e in edits {
            apply_edit(&mut work, e);
        }
        for n in skip {
            work.dir_mut().remove(*n);
        }
        sync_tree(&r.root, &work, skip)?;
        for (n, m) in mine {
            work.put(n, m);
        }
        let mut sub = String::new();
        let args: Vec<String> = match racer {
            Racer::Commit => vec!["commit".into(), "--message=racing".into()],
            Racer::Insert(65535) => vec!["insert".into(), ".".into()],
            Racer::Insert(x) => {
                sub = pick(&work.paths().into_iter().map(|x| x.0).collect::<Vec<_>>(), *x).unwrap_or_default();
                vec!["insert".into(), "--".into(), if sub.is_empty() { ".".into() } else { sub.clone() }]
            }
            Racer::Status => vec!["status".into()],
            Racer::Compare => vec!["compare".into()],
            Racer::CheckoutHead => vec!["checkout-head".into(), "other".into()],
        };
        // What the command does to the working directory when nothing interferes
        let dry = |home: &Path| {
            let mut k = r.cmd(&r.root, &args);
            k.env("HOME", home).env("LD_PRELOAD", &env.ctx.shim).env("VC_DIR", &r.root).env("VC_NOT", r.root.join(".snapcd"));
            k
        };
        let (saved, home2, sites) = (base.join("saved"), base.join("h2"), base.join("sites"));
        copy_dir(&r.root.join(".snapcd"), &saved)?;
        copy_dir(&r.home, &home2)?;
        let mut k = dry(&home2);
        k.env("VC_SITES", &sites);
        output(k)?;
        std::fs::remove_dir_all(r.root.join(".snapcd"))?;
        std::fs::remove_dir_all(&home2)?;
        std::fs::rename(&saved, r.root.join(".snapcd"))?;
        let ops: Vec<(u8, u32)> = std::fs::read(&sites)?
            .chunks_exact(5)
            .map(|x| (x[0], u32::from_le_bytes([x[1], x[2], x[3], x[4]])))
            .collect();
        if ops.is_empty() {
            viol!("{:?} does not look at the working directory", args);
        }
        // Where links are looked at, mostly stop there
        let at_links: Vec<usize> = (0..ops.len())
            .filter(|i| (0..c.links.len()).any(|l| {
                let q = format!("{}/{}", LINKS, l);
                [r.root.join(&q), r.root.join(".").join(&q)].iter().any(|p| hash(p) == ops[*i].1)
            }))
            .collect();
        let opened: Vec<usize> = at_links.iter().copied().filter(|i| ops[*i].0 == K_OPEN).collect();
        let mut ats: Vec<(usize, &Stop)> = stops
            .iter()
            .map(|s| match s.at % 4 {
                0 => (s.at as usize * ops.len() / 65536, s),
                1 => (pick(&at_links, s.at.wrapping_mul(40503)).unwrap_or(s.at as usize * ops.len() / 65536), s),
                // Or just before they are opened
                _ => (pick(&opened, s.at.wrapping_mul(40503)).unwrap_or(s.at as usize * ops.len() / 65536), s),
            })
            .collect();
        ats.sort_by_key(|x| x.0);
        ats.dedup_by_key(|x| x.0);
        let prev = db::load(&r.db())?;
        let mut w = World { root: r.root.clone(), aside: aside.clone(), n, turn: stops.len() as u8, now: work.clone(), states: vec![work.clone()] };
        let mut k = dry(&r.home);
        // The order in which directories and differences are gone through varies from run to run
        let when: Vec<String> =
            ats.iter().map(|x| format!("{}:{}:{}", ops[x.0].0, ops[x.0].1, ops[..=x.0].iter().filter(|o| **o == ops[x.0]).count())).collect();
        let hits = base.join("hits");
        let _ = std::fs::remove_file(&hits);
        k.env("VC_ACT", "stop").env("VC_WHEN", when.join(",")).env("VC_HIT", &hits);
        let mut p = Proc::start(k, &base, "racer")?;
        let mut st = p.wait()?;
        let mut at = 0;
        let o = loop {
            match st {
                W::Done(o) => break o,
                W::Stopped => {
                    let hit = match std::fs::read(&hits)?.last() {
                        Some(b) => &ats[*b as usize],
                        None => viol!("stopped nowhere"),
                    };
                    for (to, ch) in &hit.1.to {
                        let paths: Vec<String> = w.now.paths().into_iter().map(|x| x.0).collect();
                        let q = match to {
                            Some(x) => pick(&paths, *x),
                            None => {
                                let h = ops[hit.0].1;
                                paths.iter().find(|q| hash(&r.root.join(q)) == h || hash(&r.root.join(".").join(q)) == h).cloned().or_else(|| pick(&paths, hit.1.at))
                            }
                        };
                        if let Some(q) = q {
                            w.change(&q, ch)?;
                        }
                    }
                    at += 1;
                    st = p.cont()?;
                }
            }
        };
        n = w.n;
        out.points += 1;
        out.nontrivial |= w.states.len() > 1;
        work = w.now.clone();
        let what = format!("{:?} (stopped at {:?} of {}: {:?})", args, ats.iter().map(|x| x.0 + 1).collect::<Vec<_>>(), ops.len(), stops);
        let found = read_followed(&r.root, &[".snapcd"])?;
        if found != work {
            viol!("{}: the working directory is now {:?}, expected {:?}", what, found, work);
        }
        let now = db::load(&r.db())?;
        let objs = match fmt::fsck(&now) {
            Ok(x) => x,
            Err(e) => viol!("{}: the repository is not sound afterwards: {}", what, e),
        };
        out.label(!o.ok(), "fails");
        out.label(at > 1, "several stops");
        if !o.ok() {
            if w.states.len() == 1 {
                viol!("{}: fails although nothing changed: {}", what, o.brief());
            }
            if !now.same(&prev) {
                viol!("{}: fails ({}) but changes the repository: {}", what, o.brief(), now.diff(&prev));
            }
        }
        let stored = match racer {
            Racer::Commit if o.ok() => {
                let head = now.head().unwrap_or_default();
                let (log, old) = (now.log(&head, None), prev.log(&head, None));
                if log.len() != old.len() + 1 || log[1..] != old[..] {
                    viol!("{}: succeeds, the ref goes from {:?} to {:?}", what, old, log);
                }
                let k = fmt::parse_key(&log[0]).unwrap();
                if objs[&k].keys.len() != 1 + old.first().map(|_| 1).unwrap_or(0) {
                    viol!("{}: commit with {} keys", what, objs[&k].keys.len());
                }
                Some(objs[&k].keys[0])
            }
            Racer::Insert(_) if o.ok() => Some(fmt::parse_key(&key_of_insert(&o)?).unwrap()),
            _ => None,
        };
        if let Some(k) = stored {
            let got = match fmt::read_model(&objs, &k) {
                Ok(m) => m,
                Err(e) => viol!("{}: what it stored cannot be read: {}", what, e),
            };
            judge_stored(&w, &sub, &got, &what)?;
            let mut x = fmt::Objs::new();
            if fmt::put_tree(&mut x, &got) != k {
                viol!("{}: stores {:?} as {}, not under the usual key", what, got, fmt::user_key(&k));
            }
            out.label(!w.states.iter().any(|s| s.get(&sub) == Some(&got)), "mixture");
            out.label(w.states.len() > 1, "stored while changing");
        }
        let tree = head_tree(&prev)?;
        if let (Racer::Status, Some(tree)) | (Racer::Compare, Some(tree)) = (racer, &tree) {
            if o.ok() {
                match report::parse(&o.text()) {
                    Ok((_, rep)) => judge_listed(&w, tree, &rep, &what)?,
                    Err(e) => viol!("{}: {}: {:?}", what, e, o.text()),
                }
                out.label(w.states.len() > 1, "listed while changing");
            }
        }
        if let (Racer::CheckoutHead, Some(tree)) = (racer, &tree) {
            if now.head() != prev.head() {
                let mut all: BTreeSet<String> = tree.paths().into_iter().map(|x| x.0).collect();
                w.states.iter().for_each(|s| all.extend(s.paths().into_iter().map(|x| x.0)));
                for q in all {
                    if !w.versions(&q).iter().any(|v| kind_eq(*v, tree.get(&q))) {
                        viol!("{}: switches although {:?} was at no moment as in the tree", what, q);
                    }
                }
                out.label(true, "switched");
            } else if o.ok() && w.states.len() == 1 && w.now == *tree {
                viol!("{}: refuses although nothing differs: {}", what, o.brief());
            }
            r.must(&["debug", "set-head", "master"])?;
        }
        // Nothing moves any more: the difference is exact again, also for what links led to before.
        let d = db::load(&r.db())?;
        if let Some(t) = head_tree(&d)?.filter(|t| t.is_dir()) {
            for turn in 0..1 + 3 * (c.settle > 0 && !c.links.is_empty()) as u8 {
                if turn > 0 {
                    for l in 0..c.links.len() {
                        w.link(&format!("{}/{}", LINKS, l), turn)?;
                    }
                    work = w.now.clone();
                    n = w.n;
                }
                let o = r.run(&["status"])?;
                let (_, rep) = match report::parse(&o.text()) {
                    Ok(x) if o.ok() => x,
                    _ => viol!("{}: status afterwards: {}", what, o.brief()),
                };
                let want = report::expected(&t, &work);
                if rep != want {
                    viol!("{}: status afterwards (links led elsewhere: {}) lists {:?}, expected {:?}", what, turn, rep, want);
                }
            }
        }
    }
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C24",
        level: "fault_enumeration",
        rule: "Commands that read the working directory are stopped before generated operations of theirs on it, while files \
               and directories are replaced, appended to, removed, added and moved, and then go on. What they store or list \
               is judged path by path against the states the working directory went through; afterwards the whole \
               repository is checked and status judged exactly. Non-trivial: something changed while the command ran.",
        assumptions: vec!["other programs' changes take effect at once (files replaced or appended to, not rewritten in place)"],
        parts: vec![
            Box::new(part("changing", 900, 15000, cases(false), run)),
            Box::new(part("settled", 144, 1200, cases(true), run).threads(24).shrink(30)),
        ],
    }
}
