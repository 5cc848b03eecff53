//! C17: concurrent commands behave as if run one after another.
use crate::{cli::*, db::Db, fault::*, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::Stdio;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Point {
    /// Where the first is stopped, and where the second (if it is)
    a: u16,
    b: Option<u16>,
    /// Which of two stopped goes on first
    a_first: bool,
    /// Stopped only at operations on the repository itself
    on_db: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    a: Target,
    b: Target,
    shared_home: bool,
    points: Vec<Point>,
}

fn cases(n: usize) -> impl Fn(Tier) -> BoxedStrategy<Case> + Sync + Send {
    move |_| {
        let point = (any::<u16>(), prop::option::weighted(0.5, any::<u16>()), any::<bool>(), any::<bool>())
            .prop_map(|(a, b, a_first, on_db)| Point { a, b, a_first, on_db });
        let init = || Just(Target { cmd: crate::hist::Cmd::Init, first: true });
        let commit = || {
            (crate::c04::message(), prop::option::weighted(0.2, 0u8..3)).prop_map(|(msg, r)| Target {
                cmd: crate::hist::Cmd::Commit { msg, r, path: None },
                first: false,
            })
        };
        let pair = prop_oneof![
            4 => (target(), target()),
            4 => (commit(), commit()),
            3 => (commit(), target()),
            3 => (target(), commit()),
            1 => (init(), target()),
            1 => (init(), prop_oneof![3 => (1u8..3).prop_map(crate::hist::Cmd::SetHead), 1 => (1u8..3).prop_map(crate::hist::Cmd::CheckoutHead)])
                .prop_map(|(a, cmd)| (a, Target { cmd, first: false })),
        ];
        (setup(false), pair, any::<bool>(), vec(point, n))
            .prop_map(|(setup, (a, b), shared_home, points)| Case { setup, a, b, shared_home, points })
            .boxed()
    }
}

pub enum W {
    Stopped,
    Done(O),
}

/// A process whose end or stop can be waited for.
pub struct Proc {
    pid: i32,
    out: PathBuf,
    err: PathBuf,
    over: bool,
}

impl Proc {
    pub fn start(mut c: std::process::Command, base: &std::path::Path, name: &str) -> Result<Proc, Fail> {
        let out = base.join(format!("{}.out", name));
        let err = base.join(format!("{}.err", name));
        c.stdout(Stdio::from(std::fs::File::create(&out)?)).stderr(Stdio::from(std::fs::File::create(&err)?));
        let child = c.spawn()?;
        crate::cli::limit(child.id());
        Ok(Proc { pid: child.id() as i32, out, err, over: false })
    }
    pub fn wait(&mut self) -> Result<W, Fail> {
        let mut st = 0;
        crate::cli::watch(self.pid as u32);
        let r = loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::WUNTRACED) };
            if r == self.pid {
                break Ok(());
            }
            let e = std::io::Error::last_os_error();
            if e.kind() != std::io::ErrorKind::Interrupted {
                break Err(e);
            }
        };
        let killed = crate::cli::unwatch(self.pid as u32);
        r?;
        if killed {
            self.over = !libc::WIFSTOPPED(st);
            viol!("a command does not end");
        }
        if libc::WIFSTOPPED(st) {
            return Ok(W::Stopped);
        }
        self.over = true;
        Ok(W::Done(O {
            code: if libc::WIFEXITED(st) { Some(libc::WEXITSTATUS(st)) } else { None },
            signal: if libc::WIFSIGNALED(st) { Some(libc::WTERMSIG(st)) } else { None },
            out: std::fs::read(&self.out)?,
            err: std::fs::read(&self.err)?,
        }))
    }
    pub fn cont(&mut self) -> Result<W, Fail> {
        unsafe { libc::kill(self.pid, libc::SIGCONT) };
        self.wait()
    }
    pub fn finish(&mut self) -> Result<O, Fail> {
        loop {
            unsafe { libc::kill(self.pid, libc::SIGCONT) };
            if let W::Done(o) = self.wait()? {
                return Ok(o);
            }
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if !self.over {
            unsafe {
                libc::kill(self.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(self.pid, &mut st, 0);
            }
        }
    }
}

/// What a serial run gives.
struct Serial {
    name: &'static str,
    a: Option<O>,
    b: Option<O>,
    db: Option<Db>,
}

fn same(a: &Option<Db>, b: &Option<Db>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.same(b),
        (None, None) => true,
        // A first init that failed may leave an empty database.
        (Some(d), None) | (None, Some(d)) => *d == Db::default(),
    }
}

fn run(env: &Env, c: &Case) -> Res {
    let mut out = Out::default();
    let first = c.a.first || c.b.first;
    let p = prepare(env, &c.setup, first)?;
    let aa = p.args(&c.a.cmd);
    let ab = p.args(&c.b.cmd);
    let home2 = p.base.join("h2");
    let two = |on: bool, i: usize, at: Option<usize>, ops: Option<&PathBuf>| -> std::process::Command {
        let mut k = p.cmd(env, if i == 0 { &aa } else { &ab });
        if i == 1 && !c.shared_home {
            k.env("HOME", &home2);
        }
        if on {
            k.env("VC_DIR", p.dbdir());
        }
        if let Some(n) = at {
            k.env("VC_AT", n.to_string()).env("VC_ACT", "stop");
        }
        if let Some(f) = ops {
            k.env("VC_OPS", f);
        }
        k
    };
    let reset = || -> Result<(), Fail> {
        p.restore()?;
        if home2.exists() {
            std::fs::remove_dir_all(&home2)?;
        }
        std::fs::create_dir(&home2)?;
        Ok(())
    };
    let mut serial = vec![];
    for (name, order) in [("first, second", &[0usize, 1][..]), ("second, first", &[1, 0]), ("first only", &[0]), ("second only", &[1]), ("none", &[])] {
        reset()?;
        let mut s = Serial { name, a: None, b: None, db: None };
        for i in order {
            let o = p.h.repo.run(if *i == 0 { &aa } else { &ab })?;
            if *i == 0 {
                s.a = Some(o);
            } else {
                s.b = Some(o);
            }
        }
        s.db = p.state()?;
        serial.push(s);
    }
    if first {
        // A first init that fails may leave an empty repository, in which the other command then works
        for (name, i) in [("init failing, second", 1usize), ("init failing, first", 0)] {
            reset()?;
            p.h.repo.run(&["init"])?;
            crate::db::open(&p.h.repo.db())?.execute_batch("DELETE FROM state")?;
            let o = p.h.repo.run(if i == 0 { &aa } else { &ab })?;
            let (a, b) = if i == 0 { (Some(o), None) } else { (None, Some(o)) };
            serial.push(Serial { name, a, b, db: p.state()? });
        }
    }
    let f = p.base.join("ops");
    let mut counts = [[0usize; 2]; 2];
    for i in 0..2 {
        for on in 0..2 {
            reset()?;
            output(two(on == 1, i, None, Some(&f)))?;
            counts[i][on] = std::fs::read(&f)?.len();
        }
    }
    let (mut both, mut one, mut met) = (0, 0, 0);
    for q in &c.points {
        reset()?;
        let on = q.on_db as usize;
        let na = 1 + q.a as usize * counts[0][on] / 65536;
        let nb = q.b.map(|b| 1 + b as usize * counts[1][on] / 65536);
        let mut a = Proc::start(two(q.on_db, 0, Some(na), None), &p.base, "a")?;
        let oa = match a.wait()? {
            W::Stopped => None,
            W::Done(o) => Some(o),
        };
        met += oa.is_none() as usize;
        let mut b = Proc::start(two(q.on_db, 1, nb, None), &p.base, "b")?;
        let ob = match b.wait()? {
            W::Stopped => None,
            W::Done(o) => Some(o),
        };
        let (oa, ob) = match (oa, ob) {
            (Some(x), Some(y)) => (x, y),
            (Some(x), None) => (x, b.finish()?),
            (None, Some(y)) => (a.finish()?, y),
            (None, None) => {
                if q.a_first {
                    let x = a.finish()?;
                    (x, b.finish()?)
                } else {
                    let y = b.finish()?;
                    (a.finish()?, y)
                }
            }
        };
        out.points += 1;
        let what = format!("{:?} stopped at {}, {:?} run meanwhile (stopped: {:?}, first on: {})", aa, na, ab, nb, q.a_first);
        let now = match p.state() {
            Err(Fail::Violation(m)) => viol!("{}: {}", what, m),
            x => x?,
        };
        let eq = |s: &Option<O>, o: &O, args: &[String]| -> bool {
            // A command that fails has no effect in any order
            match s {
                Some(s) => s.ok() == o.ok() && (!o.ok() || canon(args, &s.out) == canon(args, &o.out)),
                None => !o.ok(),
            }
        };
        if oa.ok() && ob.ok() {
            both += 1;
        } else if oa.ok() != ob.ok() {
            one += 1;
        }
        if !serial.iter().any(|s| same(&s.db, &now) && eq(&s.a, &oa, &aa) && eq(&s.b, &ob, &ab)) {
            let mut m = String::new();
            for s in &serial {
                let d = match (&now, &s.db) {
                    (Some(x), Some(y)) => x.diff(y),
                    _ => "one missing".into(),
                };
                m += &format!("\n  against {:?}: {}", s.name, d);
            }
            viol!("{}:\nfirst: {}\nsecond: {}{}", what, oa.brief(), ob.brief(), m);
        }
    }
    out.nontrivial = met > 0 && both + one > 0;
    out.label(both > 0, "both succeed");
    out.label(one > 0, "one succeeds");
    out.label(aa[0] == "commit" && ab[0] == "commit", "two commits");
    out.label(first, "first init");
    Ok(out)
}

// ---- Several commits at once, not held up anywhere ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Free {
    setup: Setup,
    /// For each process: which ref (none: HEAD), own home
    procs: Vec<(Option<u8>, bool)>,
}

fn free(env: &Env, c: &Free) -> Res {
    let mut out = Out::default();
    let p = prepare(env, &c.setup, false)?;
    let head = p.h.head();
    let name = |r: &Option<u8>| r.map(|r| crate::hist::refname(r).to_string()).unwrap_or_else(|| head.clone());
    let mut ps = vec![];
    for (i, (r, own)) in c.procs.iter().enumerate() {
        let mut args = vec!["commit".to_string(), format!("--message=m{}", i)];
        if let Some(r) = r {
            args.push("--".into());
            args.push(crate::hist::refname(*r).into());
        }
        let mut k = p.h.repo.cmd(&p.h.repo.root, &args);
        if *own {
            let h = p.base.join(format!("home{}", i));
            std::fs::create_dir(&h)?;
            k.env("HOME", h);
        }
        ps.push(Proc::start(k, &p.base, &format!("p{}", i))?);
    }
    let mut os = vec![];
    for x in &mut ps {
        os.push(x.finish()?);
    }
    let now = match p.state()? {
        Some(d) => d,
        None => viol!("the repository is gone"),
    };
    let mut ok = 0;
    let refs: std::collections::BTreeSet<String> = c.procs.iter().map(|x| name(&x.0)).collect();
    for rf in &refs {
        let old = p.before.log(rf, None);
        let log = now.log(rf, None);
        let want: std::collections::BTreeSet<String> =
            (0..os.len()).filter(|i| os[*i].ok() && name(&c.procs[*i].0) == *rf).map(|i| format!("m{}", i)).collect();
        ok += want.len();
        if log.len() != old.len() + want.len() || log[log.len() - old.len()..] != old[..] {
            viol!("{} commits to {:?} report success, but it went from {:?} to {:?}", want.len(), rf, old, log);
        }
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..want.len() {
            let k = fmt::parse_key(&log[i]).unwrap_or_default();
            let decoded = now.objects.get(&fmt::dbkey(&k)).and_then(|v| fmt::decode_object(v).ok());
            let (parents, msg) = match decoded.and_then(|o| {
                let parents: Vec<String> = o.keys.iter().skip(1).map(fmt::user_key).collect();
                fmt::commit_message(&o.data).ok().map(|m| (parents, m))
            }) {
                Some(x) => x,
                None => viol!("{} is no commit", log[i]),
            };
            let before: Vec<String> = log.get(i + 1).cloned().into_iter().collect();
            if parents != before {
                viol!("commit {} of {:?} has parents {:?}, its log says {:?}", log[i], rf, parents, before);
            }
            seen.insert(msg);
        }
        if seen != want {
            viol!("{:?} holds {:?}, successful commits were {:?}", rf, seen, want);
        }
    }
    if now.reflog.len() != p.before.reflog.len() + ok {
        viol!("{} entries for {} commits", now.reflog.len() - p.before.reflog.len(), ok);
    }
    out.nontrivial = ok > 1;
    out.label(ok == os.len(), "all succeed");
    out.label(ok < os.len(), "some are refused");
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "fault_enumeration",
        rule: "A generated history and two commands. The first is stopped at a chosen one of its file operations (or of those on the \
               repository), the second runs then, perhaps stopped as well, and both go on in a chosen order. The outputs and the whole \
               database must be those of a serial run of the commands that report success. free: several commits run at once, not held \
               up. Non-trivial: the first was stopped and one or both succeeded; more than one commit succeeded.",
        assumptions: vec!["the kernel's file locks work as POSIX says"],
        parts: vec![
            Box::new(part("schedules", 300, 6000, cases(24), run).shrink(40)),
            Box::new(
                part(
                    "free",
                    120,
                    400,
                    |_| {
                        (setup(false), vec((prop::option::weighted(0.2, 0u8..3), any::<bool>()), 2..5))
                            .prop_map(|(setup, procs)| Free { setup, procs })
                            .boxed()
                    },
                    free,
                )
                .threads(4)
                .shrink(10),
            ),
        ],
    }
}
