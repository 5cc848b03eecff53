//! C15: a crash at any moment leaves the state before or after a command.
use crate::{cli::*, db::Db, fault::*, infra, runner::*, tree::splitmix, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    target: Target,
    /// Crash points among the operations that change nothing, and where recovery is interrupted again
    picks: Vec<u16>,
    seed: u64,
}

fn cases(big: bool, n: usize) -> impl Fn(Tier) -> BoxedStrategy<Case> + Sync + Send {
    move |_| {
        (setup(big), target(), vec(any::<u16>(), n), any::<u64>())
            .prop_map(|(setup, target, picks, seed)| Case { setup, target, picks, seed })
            .boxed()
    }
}

/// What an uninterrupted run does: its output and the state after it.
struct Ref {
    out: O,
    db: Db,
}

fn normal(p: &Prep, args: &[String]) -> Result<Ref, Fail> {
    let out = p.h.repo.run(args)?;
    let db = match p.state()? {
        Some(d) => d,
        None => viol!("{:?} leaves no repository: {}", args, out.brief()),
    };
    Ok(Ref { out, db })
}

fn judge(p: &Prep, after: &Db, args: &[String], what: &str) -> Result<bool, Fail> {
    let d = match p.state() {
        Ok(d) => d,
        Err(Fail::Violation(m)) => viol!("{} {:?}: {}", what, args, m),
        Err(e) => return Err(e),
    };
    if p.is_before(&d) {
        return Ok(false);
    }
    let d = d.unwrap();
    if d.same(after) {
        return Ok(true);
    }
    viol!("{} {:?}: neither as before ({}) nor as after it ({})", what, args, d.diff(&p.before), d.diff(after))
}

/// The next command has to find the one or the other, and work as if nothing had happened.
fn next(p: &Prep, done: bool, once: &Ref, twice: &Ref, args: &[String], what: &str) -> Result<(), Fail> {
    let want = if done { twice } else { once };
    let o = p.h.repo.run(args)?;
    if canon(args, &o.out) != canon(args, &want.out.out) || o.code != want.out.code {
        viol!("{} {:?}, running it again gives {}, expected {}", what, args, o.brief(), want.out.brief());
    }
    let d = p.state()?;
    if !d.as_ref().map(|d| d.same(&want.db)).unwrap_or(false) {
        viol!("{} {:?}, running it again leaves {}", what, args, d.map(|d| d.diff(&want.db)).unwrap_or_default());
    }
    Ok(())
}

fn killed(env: &Env, c: &Case) -> Res {
    let mut out = Out::default();
    let p = prepare(env, &c.setup, c.target.first)?;
    let args = p.args(&c.target.cmd);
    let once = normal(&p, &args)?;
    let twice = normal(&p, &args)?;
    // Which operations there are
    p.restore()?;
    let ops_file = p.base.join("ops");
    let mut k = p.cmd(env, &args);
    k.env("VC_OPS", &ops_file);
    let o = output(k)?;
    if canon(&args, &o.out) != canon(&args, &once.out.out) {
        infra!("with the injector {:?} gives {}, without {}", args, o.brief(), once.out.brief());
    }
    let ops = std::fs::read(&ops_file)?;
    let mut points: Vec<(usize, bool)> = vec![];
    for (i, k) in ops.iter().enumerate() {
        if [K_WRITE, K_SYNC, K_TRUNC, K_UNLINK, K_MKDIR, K_RENAME].contains(k) {
            points.push((i + 1, false));
            if *k == K_WRITE {
                points.push((i + 1, true));
            }
        }
    }
    // Many writes (of a large file): a sample
    let mut seed = c.seed;
    while points.len() > 90 {
        let n = splitmix(&mut seed) as usize % points.len();
        points.swap_remove(n);
    }
    for x in &c.picks {
        points.push((1 + *x as usize * ops.len() / 65536, false));
    }
    let mut undone = 0;
    let mut full = 0;
    for (n, (at, torn)) in points.iter().enumerate() {
        p.restore()?;
        let mut k = p.cmd(env, &args);
        k.env("VC_AT", at.to_string()).env("VC_ACT", if *torn { "torn" } else { "kill" });
        let o = output(k)?;
        let what = format!("killed {} operation {} of", if *torn { "in the middle of" } else { "before" }, at);
        if o.signal != Some(9) {
            // Hash maps may make runs differ a little
            if canon(&args, &o.out) == canon(&args, &once.out.out) {
                continue;
            }
            infra!("not killed at {} of {}: {}", at, ops.len(), o.brief());
        }
        out.points += 1;
        let done = judge(&p, &once.db, &args, &what)?;
        if done {
            full += 1;
        } else {
            undone += 1;
        }
        if n % 3 == 0 && !p.h.repo.root.join(".snapcd/snapcd.db").exists() {
            // Nothing there yet
        } else if n % 3 == 0 {
            // Recovery is interrupted as well
            let m = 1 + splitmix(&mut seed) % 60;
            let mut k = p.cmd(env, &["debug".to_string(), "get-head".to_string()]);
            k.env("VC_AT", m.to_string()).env("VC_ACT", if splitmix(&mut seed) % 2 == 0 { "kill" } else { "torn" });
            let _ = output(k)?;
            let what = format!("{} {:?} and the next command at operation {}, after", what, args, m);
            let again = judge(&p, &once.db, &args, &what)?;
            if again != done {
                viol!("{}: first {}, then {}", what, if done { "complete" } else { "undone" }, if again { "complete" } else { "undone" });
            }
        }
        next(&p, done, &once, &twice, &args, &what)?;
    }
    out.nontrivial = undone > 0 && !once.db.same(&p.before);
    out.label(full > 0, "some crash leaves it complete");
    out.label(c.setup.big.is_some(), "larger than the page cache");
    out.label(c.setup.wide > 0, "wide directory");
    out.label(c.target.first, "first init");
    out.labels.push(format!("command {}", args[0]));
    Ok(out)
}

// ---- Power loss ----

enum Pend {
    Create,
    Unlink,
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Default)]
struct F {
    durable: Option<Vec<u8>>,
    pend: Vec<Pend>,
}

fn apply(f: &mut Option<Vec<u8>>, q: &Pend, sectors: Option<&mut u64>) {
    match q {
        Pend::Create => {
            if f.is_none() {
                *f = Some(vec![]);
            }
        }
        Pend::Unlink => *f = None,
        Pend::Trunc(n) => {
            if let Some(b) = f {
                b.resize(*n, 0);
            }
        }
        Pend::Write(off, d) => {
            if let Some(b) = f {
                if b.len() < off + d.len() {
                    b.resize(off + d.len(), 0);
                }
                match sectors {
                    None => b[*off..off + d.len()].copy_from_slice(d),
                    Some(seed) => {
                        // Sector by sector
                        let mut i = 0;
                        while i < d.len() {
                            let n = (512 - (off + i) % 512).min(d.len() - i);
                            if splitmix(seed) % 2 == 0 {
                                b[off + i..off + i + n].copy_from_slice(&d[i..i + n]);
                            }
                            i += n;
                        }
                    }
                }
            }
        }
    }
}

impl F {
    fn sync(&mut self) {
        for q in std::mem::take(&mut self.pend) {
            apply(&mut self.durable, &q, None);
        }
    }
    /// What may be found after power was lost.
    fn after_loss(&self, mode: u8, seed: &mut u64) -> Option<Vec<u8>> {
        let mut f = self.durable.clone();
        let whole = splitmix(seed) % 2 == 0;
        for q in &self.pend {
            let entry = matches!(q, Pend::Create | Pend::Unlink);
            let keep = match mode {
                0 => false,
                1 => true,
                2 => whole,
                // Data lost, names and sizes kept
                3 => entry || matches!(q, Pend::Trunc(_)),
                _ => splitmix(seed) % 2 == 0 || (entry && splitmix(seed) % 2 == 0),
            };
            if keep {
                apply(&mut f, q, None);
            } else if mode == 5 && matches!(q, Pend::Write(..)) {
                apply(&mut f, q, Some(seed));
            }
        }
        f
    }
}

fn lay_out(files: &BTreeMap<String, F>, dir: &Path, mode: u8, seed: &mut u64) -> Result<(), Fail> {
    if dir.exists() {
        std::fs::remove_dir_all(dir)?;
    }
    std::fs::create_dir_all(dir)?;
    for (n, f) in files {
        if let Some(b) = f.after_loss(mode, seed) {
            std::fs::write(dir.join(n), b)?;
        }
    }
    Ok(())
}

fn power(env: &Env, c: &Case) -> Res {
    let mut out = Out::default();
    let p = prepare(env, &c.setup, c.target.first)?;
    let args = p.args(&c.target.cmd);
    let once = normal(&p, &args)?;
    let twice = normal(&p, &args)?;
    p.restore()?;
    let log = p.base.join("log");
    let mut k = p.cmd(env, &args);
    k.env("VC_LOG", &log);
    let o = output(k)?;
    if canon(&args, &o.out) != canon(&args, &once.out.out) {
        infra!("with the injector {:?} gives {}, without {}", args, o.brief(), once.out.brief());
    }
    let success = o.ok();
    let ops = read_log(&log)?;
    let dir = p.dbdir();
    let dirs = dir.to_string_lossy().into_owned();
    let mut files: BTreeMap<String, F> = BTreeMap::new();
    if !c.target.first {
        for e in std::fs::read_dir(p.saved_db())? {
            let e = e?;
            let f = F { durable: Some(std::fs::read(e.path())?), pend: vec![] };
            files.insert(e.file_name().to_string_lossy().into_owned(), f);
        }
    }
    let mut seed = c.seed;
    let total = ops.len();
    let mut losses = 0;
    for t in 0..=total {
        let end = t == total;
        let mut changed = end || t == 0;
        if t > 0 {
            let op = &ops[t - 1];
            let rel = match op.path.strip_prefix(&dirs) {
                Some(r) => r.trim_start_matches('/').to_string(),
                None => String::from("\0"),
            };
            if rel.is_empty() {
                if op.kind == K_SYNC {
                    // The directory: names are on disk
                    for f in files.values_mut() {
                        let pend = std::mem::take(&mut f.pend);
                        for q in pend {
                            match q {
                                Pend::Create | Pend::Unlink => apply(&mut f.durable, &q, None),
                                q => f.pend.push(q),
                            }
                        }
                    }
                    changed = true;
                }
            } else if rel != "\0" && !rel.contains('/') {
                let f = files.entry(rel).or_default();
                changed = true;
                match op.kind {
                    K_OPEN => {
                        changed = op.off == 1 || op.len == 1;
                        if op.off == 1 {
                            f.pend.push(Pend::Create);
                        }
                        if op.len == 1 {
                            f.pend.push(Pend::Trunc(0));
                        }
                    }
                    K_WRITE => f.pend.push(Pend::Write(op.off as usize, op.data.clone())),
                    K_TRUNC => f.pend.push(Pend::Trunc(op.off as usize)),
                    K_UNLINK => f.pend.push(Pend::Unlink),
                    K_SYNC => f.sync(),
                    _ => changed = false,
                }
            }
        }
        // Long runs of writes: a sample
        if !changed || (!end && total > 150 && splitmix(&mut seed) % (total as u64 / 60) != 0) {
            continue;
        }
        for mode in 0..6u8 {
            lay_out(&files, &dir, mode, &mut seed)?;
            losses += 1;
            let what = format!("power lost after {} of {} logged operations (mode {}) of", t, total, mode);
            let done = judge(&p, &once.db, &args, &what)?;
            if end && success && !done && !once.db.same(&p.before) {
                viol!("power lost after {:?} reported success (mode {}): its effect is gone", args, mode);
            }
            if splitmix(&mut seed) % 25 == 0 {
                next(&p, done, &once, &twice, &args, &what)?;
            }
        }
    }
    out.points = losses;
    out.nontrivial = !once.db.same(&p.before);
    out.label(c.setup.big.is_some(), "larger than the page cache");
    out.label(c.setup.wide > 0, "wide directory");
    out.label(c.target.first, "first init");
    out.labels.push(format!("command {}", args[0]));
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C15",
        level: "fault_enumeration",
        rule: "A generated history, then one command. killed: the process is killed before (or in the middle of) each of its file \
               operations that change something and a sample of the others, sometimes the recovering command as well. power: all file \
               operations are recorded; at each point the unsynced writes are lost, kept, or kept in part (by write or sector). Each time \
               the database must load whole and equal the state before or after, the command run again must do exactly what it does \
               from there, and after success only the state after counts. Non-trivial: the command changes the repository.",
        assumptions: vec![
            "what was synced is on disk; a sync of a new file includes its name",
            "a write that was not synced may be lost or kept by 512-byte sectors; other bytes are unharmed",
        ],
        parts: vec![
            Box::new(part("killed", 130, 1500, cases(false, 12), killed).shrink(40)),
            Box::new(part("killed-big", 10, 80, cases(true, 6), killed).shrink(10)),
            Box::new(part("power", 400, 3000, cases(false, 0), power).shrink(40)),
            Box::new(part("power-big", 16, 120, cases(true, 0), power).shrink(10)),
        ],
    }
}
