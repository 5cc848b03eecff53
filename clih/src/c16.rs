//! C16: success is reported only when the whole effect took place.
use crate::{cli::*, db::Db, fault::*, hist::{Cmd, REFS}, infra, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use rusqlite::{Connection, NO_PARAMS};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    target: Target,
    /// Where and with what (both chosen among what the command does)
    faults: Vec<(u16, u8)>,
    /// Instead: at every operation in turn, with what depends on this
    every: Option<u8>,
}

/// Commands of all kinds, about equally often.
fn any_target() -> BoxedStrategy<Target> {
    let look = |w: u32, k: u8| (w, any::<u16>().prop_map(move |n| Target { cmd: Cmd::Look(k, n), first: false }).boxed());
    let store = storing().prop_map(|cmd| Target { cmd, first: false }).boxed();
    let first = Just(Target { cmd: Cmd::Init, first: true }).boxed();
    let head = (0u8..REFS.len() as u8).prop_map(|r| Target { cmd: Cmd::CheckoutHead(r), first: false }).boxed();
    prop::strategy::Union::new_weighted(vec![
        (16, store),
        (1, first),
        (2, head),
        look(3, 0),
        look(2, 1),
        look(1, 2),
        look(2, 3),
        look(2, 4),
        look(1, 5),
        look(1, 6),
        look(1, 7),
        look(1, 8),
        look(1, 9),
        look(1, 10),
        look(5, 11),
        look(3, 12),
        look(1, 13),
    ])
    .boxed()
}

/// The operations of a command, grouped by what is done to which file.
fn sites(b: &[u8]) -> (Vec<u8>, Vec<Vec<usize>>) {
    let mut g: std::collections::BTreeMap<&[u8], Vec<usize>> = Default::default();
    for (i, x) in b.chunks(5).enumerate() {
        g.entry(x).or_default().push(i);
    }
    let mut g: Vec<Vec<usize>> = g.into_iter().map(|x| x.1).collect();
    g.sort();
    (b.chunks(5).map(|x| x[0]).collect(), g)
}

fn cases(big: bool, n: usize) -> impl Fn(Tier) -> BoxedStrategy<Case> + Sync + Send {
    move |_| {
        (setup(big), any_target(), vec((any::<u16>(), any::<u8>()), n))
            .prop_map(|(setup, target, faults)| Case { setup, target, faults, every: None })
            .boxed()
    }
}

fn every_case(_: Tier) -> BoxedStrategy<Case> {
    (setup(false), any_target(), any::<u8>())
        .prop_map(|(mut setup, target, every)| {
            setup.edits.truncate(1);
            Case { setup, target, faults: vec![], every: Some(every) }
        })
        .boxed()
}

pub struct Normal {
    out: O,
    db: Option<Db>,
    fetched: Option<(PathBuf, M)>,
    work: M,
}

fn fetched_to(p: &Prep, args: &[String]) -> Option<PathBuf> {
    if args[0] == "fetch" {
        Some(p.h.repo.root.join(&args[2]))
    } else {
        None
    }
}

fn at(q: &PathBuf) -> Result<M, Fail> {
    if std::fs::symlink_metadata(q).is_err() {
        return Ok(M::file(b"nothing there"));
    }
    read_tree(q, &[])
}

fn observe(p: &Prep, args: &[String], out: O) -> Result<Normal, Fail> {
    let db = p.state()?;
    let fetched = match fetched_to(p, args) {
        Some(q) => {
            let m = at(&q)?;
            Some((q, m))
        }
        None => None,
    };
    Ok(Normal { out, db, fetched, work: read_tree(&p.h.repo.root, &[".snapcd"])? })
}

fn is(a: &Option<Db>, b: &Option<Db>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.same(b),
        (None, None) => true,
        _ => false,
    }
}

/// The exit status has to tell a failure as well.
fn status(o: &O) -> Result<(), String> {
    if o.code == Some(0) && !o.ok() {
        return Err(format!("says that it failed, but exits as after success: {}", o.brief()));
    }
    Ok(())
}

/// Judges a run during which something failed.
fn judge(p: &Prep, args: &[String], o: O, once: &Normal, what: &str) -> Result<(bool, bool), Fail> {
    let brief = o.brief();
    let now = match observe(p, args, o) {
        Err(Fail::Violation(m)) => viol!("{} of {:?}: {} ({})", what, args, m, brief),
        x => x?,
    };
    if now.work != once.work {
        viol!("{} of {:?}: the working directory changed ({})", what, args, brief);
    }
    let done = is(&now.db, &once.db);
    status(&now.out).map_err(|m| Fail::Violation(format!("{} of {:?}: {}", what, args, m)))?;
    if now.out.ok() {
        if canon(args, &now.out.out) != canon(args, &once.out.out) {
            viol!("{} of {:?}: reports success: {}\nbut normally: {}", what, args, brief, once.out.brief());
        }
        if !done && once.out.ok() {
            viol!(
                "{} of {:?}: reports success, but not the state after it: {} ({})",
                what,
                args,
                now.db.map(|d| once.db.as_ref().map(|e| d.diff(e)).unwrap_or_default()).unwrap_or_default(),
                brief
            );
        }
        if let (Some(a), Some(b)) = (&now.fetched, &once.fetched) {
            if a.1 != b.1 {
                viol!("{} of {:?}: reports success, but {:?} is {:?}\nexpected {:?}", what, args, a.0, a.1, b.1);
            }
        }
        return Ok((true, done));
    }
    if !p.is_before(&now.db) && !done {
        viol!(
            "{} of {:?}: fails and leaves neither the state before ({}) nor after: {}",
            what,
            args,
            now.db.as_ref().map(|d| d.diff(&p.before)).unwrap_or_default(),
            brief
        );
    }
    Ok((false, done))
}

/// Everything works again: the command does what it does from that state.
fn again(p: &Prep, args: &[String], done: bool, once: &Normal, twice: &Normal, what: &str) -> Result<(), Fail> {
    let want = if done && !is(&once.db, &Some(p.before.clone())) { twice } else { once };
    if let Some(q) = fetched_to(p, args) {
        if q.is_dir() {
            std::fs::remove_dir_all(&q)?;
        } else if q.exists() {
            std::fs::remove_file(&q)?;
        }
    }
    let o = p.h.repo.run(args)?;
    let db = p.state()?;
    if canon(args, &o.out) != canon(args, &want.out.out) || o.code != want.out.code || !is(&db, &want.db) {
        viol!("{} of {:?}: afterwards it gives {}, expected {}", what, args, o.brief(), want.out.brief());
    }
    Ok(())
}

fn faults(env: &Env, c: &Case) -> Res {
    let mut out = Out::default();
    let p = prepare(env, &c.setup, c.target.first)?;
    let args = p.args(&c.target.cmd);
    p.restore()?;
    let once = {
        let o = p.h.repo.run(&args)?;
        observe(&p, &args, o)?
    };
    let twice = {
        let o = p.h.repo.run(&args)?;
        observe(&p, &args, o)?
    };
    p.restore()?;
    let ops_file = p.base.join("ops");
    let mut k = p.cmd(env, &args);
    k.env("VC_SITES", &ops_file).env("VC_STDOUT", "1");
    let o = output(k)?;
    if canon(&args, &o.out) != canon(&args, &once.out.out) {
        infra!("with the injector {:?} gives {}, without {}", args, o.brief(), once.out.brief());
    }
    let (ops, groups) = sites(&std::fs::read(&ops_file)?);
    let (mut survived, mut failed) = (0, 0);
    let mut chosen: Vec<(usize, u16, u8)> = vec![];
    if let Some(e) = c.every {
        // Errors mostly; now and then one that lasts
        let stride = 1 + ops.len() / 400;
        for i in (0..ops.len()).step_by(stride) {
            let how = if i % 8 == 7 { e.rotate_left(i as u32) } else { e & 1 };
            chosen.push((i, (how as u16 & 1) ^ (i % 4 == 3) as u16, how));
        }
    }
    for (n, (at, how)) in c.faults.iter().enumerate() {
        // One of all operations, or one of those of some kind on some file
        let i = if n % 2 == 0 {
            *at as usize * ops.len() / 65536
        } else {
            let g = &groups[*at as usize * groups.len() / 65536];
            g[*how as usize * g.len() / 256]
        };
        chosen.push((i, *at, *how));
    }
    for (n, (i, at, how)) in chosen.iter().enumerate() {
        let i = *i;
        let acts: &[&str] = match ops[i] {
            K_OPEN => &["fail:5", "fail:13", "fail:24", "eintr"],
            K_READ => &["fail:5", "fail:5", "short", "eintr"],
            K_WRITE => &["fail:28", "fail:28", "fail:5", "short", "eintr"],
            K_LOCK => &["fail:11", "fail:5", "fail:37"],
            K_STAT => &["fail:13", "fail:5"],
            K_MKDIR => &["fail:13", "fail:28"],
            _ => &["fail:5"],
        };
        let act = acts[*how as usize % acts.len()];
        let keep = (*at ^ *how as u16) & 1 == 1;
        p.restore()?;
        let mut k = p.cmd(env, &args);
        k.env("VC_AT", (i + 1).to_string()).env("VC_ACT", act).env("VC_STDOUT", "1");
        if keep {
            k.env("VC_KEEP", "1");
        }
        let o = output(k)?;
        out.points += 1;
        let what = format!("{} at operation {} (kind {}{})", act, i + 1, ops[i], if keep { ", from then on" } else { "" });
        let (ok, done) = judge(&p, &args, o, &once, &what)?;
        if ok {
            survived += 1;
        } else {
            failed += 1;
        }
        if n % 4 < 2 && n % 8 != 1 {
            again(&p, &args, done, &once, &twice, &what)?;
        }
    }
    out.nontrivial = failed > 0;
    out.label(failed > 0, "some fault makes it fail");
    out.label(survived > 0, "some fault is survived");
    out.label(c.setup.big.is_some(), "larger than the page cache");
    out.label(c.setup.wide > 0, "wide directory");
    out.labels.push(format!("command {}", args[0]));
    Ok(out)
}

// ---- Locks held by others ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Locked {
    setup: Setup,
    target: Target,
    /// On the repository and on the cache: 0 none, 1 reading, 2 about to write, 3 exclusive
    locks: Vec<(u8, u8)>,
    /// The lock is given up after a while (and sleeping takes time)
    brief: Option<u8>,
}

fn hold(f: &PathBuf, level: u8) -> Result<Option<Connection>, Fail> {
    if level == 0 || !f.exists() {
        return Ok(None);
    }
    let c = crate::db::open(f)?;
    match level {
        1 => {
            c.execute_batch("BEGIN")?;
            let _: i64 = c.query_row("SELECT count(*) FROM sqlite_master", NO_PARAMS, |r| r.get(0))?;
        }
        2 => c.execute_batch("BEGIN IMMEDIATE")?,
        _ => c.execute_batch("BEGIN EXCLUSIVE")?,
    }
    Ok(Some(c))
}

fn locked(env: &Env, c: &Locked) -> Res {
    let mut out = Out::default();
    let p = prepare(env, &c.setup, c.target.first)?;
    let args = p.args(&c.target.cmd);
    p.restore()?;
    let once = {
        let o = p.h.repo.run(&args)?;
        observe(&p, &args, o)?
    };
    let twice = {
        let o = p.h.repo.run(&args)?;
        observe(&p, &args, o)?
    };
    for (d, h) in &c.locks {
        p.restore()?;
        let cache = p.h.repo.home.join(".cache/snapcd/cache.db");
        let l1 = hold(&p.h.repo.db(), *d)?;
        let l2 = hold(&cache, *h)?;
        let mut k = p.cmd(env, &args);
        let what = format!("lock {} on the repository, {} on the cache", d, h);
        let o = match c.brief {
            None => output(k)?,
            Some(ms) => {
                k.env_remove("VC_NOSLEEP");
                std::thread::scope(|s| {
                    let t = s.spawn(move || output(k));
                    std::thread::sleep(Duration::from_millis(ms as u64));
                    drop(l1);
                    drop(l2);
                    t.join().unwrap_or_else(|_| Err(Fail::Infra("thread".into())))
                })?
            }
        };
        // The connections are dropped only here where no time limit was set
        out.points += 1;
        let (ok, done) = judge(&p, &args, o, &once, &what)?;
        out.label(!ok && *d > 0, "refused");
        out.label(ok && (*d > 0 || *h > 0), "done nevertheless");
        out.nontrivial |= *d > 0 || *h > 0;
        again(&p, &args, done, &once, &twice, &what)?;
    }
    out.labels.push(format!("command {}", args[0]));
    Ok(out)
}

fn locked_cases(_: Tier) -> BoxedStrategy<Locked> {
    (setup(false), any_target(), vec((0u8..4, prop_oneof![2 => Just(0u8), 1 => 0u8..4]), 3), prop::option::weighted(0.4, 0u8..40))
        .prop_map(|(setup, target, locks, brief)| Locked { setup, target, locks, brief })
        .boxed()
}

// ---- Commands that are to fail of their own ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refused {
    tree: Node,
    cmds: Vec<Cmd>,
}

fn refused_cases(_: Tier) -> BoxedStrategy<Refused> {
    let one = prop_oneof![1 => crate::hist::cmd(), 1 => (0u8..16, any::<u16>()).prop_map(|(k, n)| Cmd::Bad(k, n))];
    (tree_with(crate::hist::content(), name(), 2, 3), vec(one, 2..12)).prop_map(|(tree, cmds)| Refused { tree, cmds }).boxed()
}

fn refused(env: &Env, c: &Refused) -> Res {
    let base = env.fresh();
    let mut h = crate::hist::Hist::new(env, &base, &c.tree)?;
    let mut out = Out::default();
    for (i, cmd) in c.cmds.iter().enumerate() {
        let st = match h.exec(cmd)? {
            Some(s) => s,
            None => continue,
        };
        h.learn(cmd, &st)?;
        let o = st.o.as_ref().unwrap();
        let what = format!("step {} ({:?})", i, st.args);
        status(o).map_err(|m| Fail::Violation(format!("{}: {}", what, m)))?;
        if st.expect_ok == Some(false) {
            if o.ok() {
                viol!("{}: failure expected, got {}", what, o.brief());
            }
            if !h.db.same(&st.prev) {
                viol!("{}: fails, but changes the repository: {}", what, h.db.diff(&st.prev));
            }
            out.nontrivial = true;
            if let Cmd::Bad(k, _) = cmd {
                out.labels.push(format!("refused {}", k));
            }
        }
        if st.expect_ok == Some(true) && o.ok() {
            out.label(true, "done");
        }
    }
    // Where there is no repository
    let o = h.repo.run_in(&base, &["status"])?;
    if o.code == Some(0) {
        viol!("status without a repository exits as after success: {}", o.brief());
    }
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C16",
        level: "fault_enumeration",
        rule: "A generated history, then one command, run normally and then with one failure injected (an error of a fitting kind, once or \
               from then on; a short or interrupted read or write) at a chosen one of its file operations, standard output included (every: at each in turn). \
               locks: the repository or the cache is locked by another connection, for the whole run or a part of it. Success must come \
               with the normal output and the full effect; failure with the state before or after. Non-trivial: some failure was reported, \
               or a lock was held. refused: histories with commands that have to fail: they exit with a failure status and leave the repository as it was.",
        assumptions: vec!["failures are errors of calls, not silently wrong data"],
        parts: vec![
            Box::new(part("faults", 300, 3000, cases(false, 60), faults).shrink(40)),
            Box::new(part("every", 120, 1500, every_case, faults).shrink(10)),
            Box::new(part("faults-big", 16, 80, cases(true, 40), faults).shrink(10)),
            Box::new(part("refused", 400, 8000, refused_cases, refused)),
            Box::new(part("locks", 400, 3000, locked_cases, locked).shrink(40)),
        ],
    }
}
