//! C10: the hash cache never changes any answer.
use crate::{c09, cli::*, db, fault::canon, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::time::Duration;

/// Longer than any file system's time stamps are coarse, and than the program waits before trusting one.
const WAIT: Duration = Duration::from_millis(3050);
const PATHS: &[&str] = &["a", "b", "c", "d/a", "d/b", "d/e/a", "d/e/f", "z z"];
const SIZES: &[usize] = &[7, 7, 7, 7, 7, 1, 100, 33000];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// New content of the same size in place; the modification time is put back or not
    InPlace(u8, u8, bool),
    /// Another size; the modification time is put back
    Resize(u8, u8, u8),
    /// A new file of the same size and modification time renamed over it
    RenameOver(u8, u8),
    /// Removed and made anew with the same size and modification time
    Recreate(u8, u8),
    /// Names exchanged
    Swap(u8, u8),
    /// Contents exchanged in place, modification times kept
    SwapContent(u8, u8),
    Touch(u8),
    /// Several new files of one size and modification time, at once
    Batch(u8, u8),
    Remove(u8),
    /// What was committed last, in place with the modification time kept
    Restore(u8),
    /// The same file (hard link) in the other repository
    LinkOver(u8, u8),
    /// Moved to the other repository
    MoveOver(u8, u8),
    /// A symbolic link to a file (0, 1) or a directory (2) outside of both repositories
    Link(u8, u8),
    /// New content for a file outside, in place; the modification time is put back or not
    Outside(u8, u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Ops(bool, Vec<Op>),
    Wait,
    Run { second: bool, k: u8, sel: u16, racy: Option<u8>, keep: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    first: Vec<(u8, u8, u8)>,
    second: Vec<(u8, u8, u8)>,
    /// Symbolic links in the first
    #[serde(default)]
    links: Vec<(u8, u8)>,
    coarse: bool,
    steps: Vec<Step>,
}

fn op() -> BoxedStrategy<Op> {
    let f = || 0u8..PATHS.len() as u8;
    let s = || 0u8..4;
    prop_oneof![
        6 => (f(), s(), prop::bool::weighted(0.8)).prop_map(|(a, b, c)| Op::InPlace(a, b, c)),
        1 => (f(), s(), 0u8..SIZES.len() as u8).prop_map(|(a, b, c)| Op::Resize(a, b, c)),
        2 => (f(), s()).prop_map(|(a, b)| Op::RenameOver(a, b)),
        2 => (f(), s()).prop_map(|(a, b)| Op::Recreate(a, b)),
        2 => (f(), f()).prop_map(|(a, b)| Op::Swap(a, b)),
        2 => (f(), f()).prop_map(|(a, b)| Op::SwapContent(a, b)),
        1 => f().prop_map(Op::Touch),
        2 => (2u8..6, s()).prop_map(|(a, b)| Op::Batch(a, b)),
        1 => f().prop_map(Op::Remove),
        2 => f().prop_map(Op::Restore),
        2 => (f(), f()).prop_map(|(a, b)| Op::LinkOver(a, b)),
        1 => (f(), f()).prop_map(|(a, b)| Op::MoveOver(a, b)),
        2 => (f(), 0u8..3).prop_map(|(a, b)| Op::Link(a, b)),
        2 => (0u8..3, s(), prop::bool::weighted(0.7)).prop_map(|(a, b, c)| Op::Outside(a, b, c)),
    ]
    .boxed()
}

fn steps() -> BoxedStrategy<Vec<Step>> {
    let second = || prop::bool::weighted(0.3);
    let run = || {
        (
            second(),
            prop_oneof![5 => Just(0u8), 2 => Just(1u8), 3 => 0u8..8],
            any::<u16>(),
            prop::option::weighted(0.12, 0u8..PATHS.len() as u8),
            prop_oneof![3 => Just(0u8), 1 => 0u8..3],
        )
            .prop_map(|(second, k, sel, racy, keep)| Step::Run { second, k, sel, racy, keep })
    };
    // Edits, perhaps time passing, questions
    let round = (second(), vec(op(), 0..4), prop::bool::weighted(0.55), vec(run(), 1..4)).prop_map(|(s, ops, w, runs)| {
        let mut v = vec![Step::Ops(s, ops)];
        if w {
            v.push(Step::Wait);
        }
        v.extend(runs);
        v
    });
    vec(round, 2..5)
        .prop_map(|v| {
            let mut waits = 0;
            v.into_iter()
                .flatten()
                .filter(|s| {
                    if let Step::Wait = s {
                        waits += 1;
                        waits <= 3
                    } else {
                        true
                    }
                })
                .collect()
        })
        .boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    let files = |n| vec((0u8..PATHS.len() as u8, 0u8..SIZES.len() as u8, 0u8..4), n);
    let links = prop_oneof![2 => Just(vec![]), 1 => vec((0u8..PATHS.len() as u8, 0u8..3), 1..4)];
    (files(1..7), files(0..5), links, any::<bool>(), steps())
        .prop_map(|(first, second, links, coarse, mut steps)| {
            // Where there are links, what they lead to changes more often.
            if !links.is_empty() {
                for s in &mut steps {
                    if let Step::Ops(_, v) = s {
                        for o in v.iter_mut() {
                            if let Op::InPlace(a, s, back) = o {
                                *o = Op::Outside(*a, *s, *back);
                            }
                        }
                    }
                }
            }
            Case { first, second, links, coarse, steps }
        })
        .boxed()
}

fn bytes(seed: u8, n: usize) -> Vec<u8> {
    if n < 200 {
        // Text, so that comparisons show it
        let mut v: Vec<u8> = (0..n).map(|i| b'a' + (seed as usize * 7 + i) as u8 % 26).collect();
        if let Some(l) = v.last_mut() {
            *l = b'\n';
        }
        if n == 1 {
            v[0] = b'0' + seed;
        }
        v
    } else {
        rnd_bytes(seed as u64, n)
    }
}

fn set_mtime(p: &Path, sec: i64, ns: i64) -> Result<(), Fail> {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let t = [libc::timespec { tv_sec: sec, tv_nsec: ns }, libc::timespec { tv_sec: sec, tv_nsec: ns }];
    if unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), 0) } != 0 {
        return Err(std::io::Error::last_os_error().into());
    }
    Ok(())
}

fn in_place(p: &Path, b: &[u8]) -> Result<(), Fail> {
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().write(true).open(p)?;
    f.write_all(b)?;
    f.set_len(b.len() as u64)?;
    Ok(())
}

/// Applies an edit to the working directory. Returns whether it left size and modification time as they were.
fn apply(root: &Path, other: &Path, outside: &Path, committed: &M, o: &Op) -> Result<bool, Fail> {
    let f = |i: &u8| root.join(PATHS[*i as usize % PATHS.len()]);
    let is = |p: &Path| p.is_file();
    let keep = |p: &Path, b: &[u8]| -> Result<(), Fail> {
        let m = std::fs::metadata(p)?;
        in_place(p, b)?;
        set_mtime(p, m.mtime(), m.mtime_nsec())
    };
    match o {
        Op::InPlace(a, s, back) => {
            let q = f(a);
            if !is(&q) {
                return Ok(false);
            }
            let old = std::fs::read(&q)?;
            let new = bytes(*s, old.len());
            if *back {
                keep(&q, &new)?;
            } else {
                in_place(&q, &new)?;
            }
            Ok(old != new && *back)
        }
        Op::Resize(a, s, n) => {
            let q = f(a);
            if is(&q) {
                keep(&q, &bytes(*s, SIZES[*n as usize % SIZES.len()]))?;
            }
            Ok(false)
        }
        Op::RenameOver(a, s) | Op::Recreate(a, s) => {
            let q = f(a);
            if !is(&q) {
                return Ok(false);
            }
            let m = std::fs::metadata(&q)?;
            let old = std::fs::read(&q)?;
            let new = bytes(*s, old.len());
            if let Op::Recreate(..) = o {
                std::fs::remove_file(&q)?;
                std::fs::write(&q, &new)?;
                set_mtime(&q, m.mtime(), m.mtime_nsec())?;
            } else {
                let t = root.join(".new");
                std::fs::write(&t, &new)?;
                set_mtime(&t, m.mtime(), m.mtime_nsec())?;
                std::fs::rename(&t, &q)?;
            }
            Ok(old != new)
        }
        Op::Swap(a, b) => {
            let (x, y) = (f(a), f(b));
            if x != y && is(&x) && is(&y) {
                let t = root.join(".new");
                std::fs::rename(&x, &t)?;
                std::fs::rename(&y, &x)?;
                std::fs::rename(&t, &y)?;
            }
            Ok(false)
        }
        Op::SwapContent(a, b) => {
            let (x, y) = (f(a), f(b));
            if x == y || !is(&x) || !is(&y) {
                return Ok(false);
            }
            let (bx, by) = (std::fs::read(&x)?, std::fs::read(&y)?);
            keep(&x, &by)?;
            keep(&y, &bx)?;
            Ok(bx != by && bx.len() == by.len())
        }
        Op::Touch(a) => {
            let q = f(a);
            if is(&q) {
                let m = std::fs::metadata(&q)?;
                set_mtime(&q, m.mtime(), m.mtime_nsec())?;
            }
            Ok(false)
        }
        Op::Batch(n, s) => {
            for i in 0..*n {
                let q = f(&i);
                if q.is_dir() {
                    continue;
                }
                std::fs::create_dir_all(q.parent().unwrap())?;
                std::fs::write(&q, bytes(s + i, SIZES[0]))?;
            }
            for i in 0..*n {
                if is(&f(&i)) {
                    set_mtime(&f(&i), 1_600_000_000, 0)?;
                }
            }
            Ok(false)
        }
        Op::Remove(a) => {
            let q = f(a);
            if is(&q) {
                std::fs::remove_file(&q)?;
            }
            Ok(false)
        }
        Op::Restore(a) => {
            let n = PATHS[*a as usize % PATHS.len()];
            let q = f(a);
            if let (true, Some(M::F(b))) = (is(&q), committed.get(n)) {
                keep(&q, b)?;
            }
            Ok(false)
        }
        Op::Link(a, t) => {
            let q = f(a);
            if !q.is_dir() {
                std::fs::create_dir_all(q.parent().unwrap())?;
                let _ = std::fs::remove_file(&q);
                std::os::unix::fs::symlink(outside.join(["0", "1", "d"][*t as usize % 3]), &q)?;
            }
            Ok(false)
        }
        Op::Outside(a, s, back) => {
            let q = outside.join(["0", "1", "d/2"][*a as usize % 3]);
            let old = std::fs::read(&q)?;
            let new = bytes(*s, old.len());
            if *back {
                keep(&q, &new)?;
            } else {
                in_place(&q, &new)?;
            }
            Ok(old != new && *back)
        }
        Op::LinkOver(a, b) | Op::MoveOver(a, b) => {
            let q = f(a);
            let t = other.join(PATHS[*b as usize % PATHS.len()]);
            if is(&q) && !t.is_dir() {
                std::fs::create_dir_all(t.parent().unwrap())?;
                let _ = std::fs::remove_file(&t);
                if let Op::LinkOver(..) = o {
                    std::fs::hard_link(&q, &t)?;
                } else {
                    std::fs::rename(&q, &t)?;
                }
            }
            Ok(false)
        }
    }
}

fn create(root: &Path, files: &[(u8, u8, u8)]) -> Result<(), Fail> {
    for (a, n, s) in files {
        let q = root.join(PATHS[*a as usize % PATHS.len()]);
        if q.is_dir() {
            continue;
        }
        std::fs::create_dir_all(q.parent().unwrap())?;
        std::fs::write(&q, bytes(*s, SIZES[*n as usize % SIZES.len()]))?;
        set_mtime(&q, 1_600_000_000, 0)?;
    }
    Ok(())
}

struct One {
    r: Repo,
    tree: M,
}

fn command(env: &Env, c: &Case, x: &One, home: &Path, args: &[String], racy: Option<&str>, jump: bool) -> Result<O, Fail> {
    let mut y = x.r.clone();
    y.home = home.to_path_buf();
    let mut k = y.cmd(&y.root, args);
    if c.coarse || racy.is_some() {
        k.env("LD_PRELOAD", &env.ctx.shim);
    }
    if c.coarse {
        k.env("VC_COARSE", "1");
    }
    if let Some(f) = racy {
        k.env("VC_DIR", &y.root).env("VC_RACY", f);
        if jump {
            k.env("VC_JUMP", "1");
        }
    }
    output(k)
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let mut out = Out::default();
    let home = base.join("h");
    let outside = base.join("outside");
    std::fs::create_dir_all(outside.join("d"))?;
    for (i, n) in ["0", "1", "d/2"].iter().enumerate() {
        std::fs::write(outside.join(n), bytes(i as u8, SIZES[0]))?;
        set_mtime(&outside.join(n), 1_600_000_000, 0)?;
    }
    let mut rs = vec![];
    for (i, files) in [&c.first, &c.second].iter().enumerate() {
        let b = base.join(format!("r{}", i));
        std::fs::create_dir(&b)?;
        let mut r = Repo::at(env, &b);
        r.home = home.clone();
        std::fs::create_dir_all(&home)?;
        create(&r.root, files)?;
        if i == 0 {
            for (a, t) in &c.links {
                apply(&r.root, &r.root, &outside, &M::empty(), &Op::Link(*a, *t))?;
            }
        }
        rs.push(One { r, tree: M::empty() });
    }
    for x in &mut rs {
        x.r.must(&["init"])?;
        x.r.must(&["commit", "-m", "base"])?;
        x.tree = c09::no_db(read_followed(&x.r.root, &[])?);
    }
    let mut n = 0;
    let mut waited = false;
    let mut warm = [false; 2];
    let mut hidden = false;
    for s in &c.steps {
        match s {
            Step::Ops(second, ops) => {
                let i = *second as usize;
                for o in ops {
                    hidden |= apply(&rs[i].r.root, &rs[1 - i].r.root, &outside, &rs[i].tree, o)? && warm[i];
                }
                waited = false;
            }
            Step::Wait => {
                std::thread::sleep(WAIT);
                waited = true;
            }
            Step::Run { second, k, sel, racy, keep } => {
                n += 1;
                let i = *second as usize;
                let fs = read_followed(&rs[i].r.root, &[".snapcd"])?;
                let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
                let files: Vec<String> = fs.files().into_iter().map(|x| x.0).collect();
                let args = match k {
                    0 => s(&["status"]),
                    1 => s(&["compare"]),
                    2 => s(&["compare", "-s"]),
                    3 => s(&["commit", "-m", &format!("c{}", n)]),
                    4 => match pick(&files, *sel) {
                        Some(f) => s(&["insert", &f]),
                        None => continue,
                    },
                    5 => s(&["checkout-head", "other"]),
                    6 => match pick(&fs.dirs(), *sel) {
                        Some(d) => s(&["compare", "-p", &d]),
                        None => continue,
                    },
                    _ => s(&["insert", "."]),
                };
                let racy = racy.map(|r| PATHS[r as usize % PATHS.len()]).filter(|_| *k < 3);
                let x = &rs[i];
                let dbf = x.r.db();
                let before = std::fs::read(&dbf)?;
                // In one half of these, time passes while the file is being read.
                let jump = sel % 2 == 1;
                let o = command(env, c, x, &home, &args, racy, jump)?;
                if racy.is_some() {
                    out.label(true, "changed while being read");
                    out.label(jump, "long read");
                    continue;
                }
                warm[i] = waited;
                let after = db::load(&dbf)?;
                let mid = std::fs::read(&dbf)?;
                // The same command on the same repository without a cache
                std::fs::write(&dbf, &before)?;
                let other = base.join(format!("fresh{}", n));
                std::fs::create_dir(&other)?;
                let o2 = command(env, c, x, &other, &args, None, false)?;
                let after2 = db::load(&dbf)?;
                let same_refs = after.refs().iter().map(|x| (&x.0, &x.1)).eq(after2.refs().iter().map(|x| (&x.0, &x.1)))
                    && after.state == after2.state;
                if canon(&args, &o.out) != canon(&args, &o2.out) || o.code != o2.code || !same_refs || (*k == 3 && after.refs() != after2.refs()) {
                    viol!("{:?} with the cache: {}\nwithout: {}\n{}", args, o.brief(), o2.brief(), after.diff(&after2));
                }
                // … and what it should say in any case
                match k {
                    0 | 1 => {
                        let head = after.log("master", None)[0].clone();
                        let head = format!("HEAD: master [{}]", &head[..8]);
                        c09::judge(&o, &x.tree, &fs, if *k == 0 { Some(&head) } else { None }, &args[0])?;
                        out.label(waited, "settled");
                        out.label(hidden, "hidden edit after a settled look");
                        out.nontrivial |= hidden || waited;
                    }
                    3 => {
                        if !o.ok() {
                            viol!("commit fails: {}", o.brief());
                        }
                        rs[i].tree = fs;
                    }
                    5 => std::fs::write(&dbf, &before)?,
                    _ => {}
                }
                if *k != 3 {
                    // Go on with either result, or with the repository as before (but the cache used)
                    match keep {
                        0 => std::fs::write(&dbf, &before)?,
                        1 if *k != 5 => std::fs::write(&dbf, &mid)?,
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(out)
}

// ---- Two file systems on which the same inode numbers occur ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Devices {
    /// Size and two seeds of each pair of files
    files: Vec<(u8, u8, u8)>,
    coarse: bool,
    order: bool,
}

static MADE: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn devices(env: &Env, c: &Devices) -> Res {
    let mut out = Out::default();
    let dev = |i: usize| env.ctx.scratch.join(format!("dev{}", i));
    let (d0, d1) = match (std::fs::metadata(dev(0)), std::fs::metadata(dev(1))) {
        (Ok(a), Ok(b)) if a.dev() != b.dev() => (dev(0), dev(1)),
        _ => {
            out.label(true, "no second file system here");
            return Ok(out);
        }
    };
    let base = env.fresh();
    let tag = base.file_name().unwrap().to_string_lossy().into_owned() + &format!("{:?}", std::thread::current().id());
    let tops: Vec<PathBuf> = vec![d0.join(&tag), d1.join(&tag)];
    let res = (|| {
        let home = base.join("h");
        let mut rs = vec![];
        for t in &tops {
            std::fs::create_dir(t)?;
            let mut r = Repo::at(env, t);
            r.home = home.clone();
            std::fs::create_dir_all(&home)?;
            std::fs::create_dir(r.root.join("d"))?;
            r.must(&["init"])?;
            rs.push(r);
        }
        let mut same = 0;
        {
            let _g = MADE.lock().unwrap();
            for (j, (n, s0, s1)) in c.files.iter().enumerate() {
                let name = format!("f{}", j);
                for tries in 0..2000 {
                    let (a, b) = (rs[0].root.join(&name), rs[1].root.join(&name));
                    std::fs::write(&a, bytes(*s0, SIZES[*n as usize % SIZES.len()]))?;
                    std::fs::write(&b, bytes(*s1, SIZES[*n as usize % SIZES.len()]))?;
                    set_mtime(&a, 1_600_000_000, 0)?;
                    set_mtime(&b, 1_600_000_000, 0)?;
                    let (x, y) = (std::fs::metadata(&a)?, std::fs::metadata(&b)?);
                    if x.ino() == y.ino() {
                        same += (x.ctime() == y.ctime() && s0 != s1) as usize;
                        break;
                    }
                    if tries == 1999 {
                        break;
                    }
                    // The one that is behind skips a number
                    if x.ino() < y.ino() {
                        std::fs::remove_file(&a)?;
                        for _ in 0..(y.ino() - x.ino()).min(5000) {
                            std::fs::write(rs[0].root.join("skip"), "")?;
                            std::fs::remove_file(rs[0].root.join("skip"))?;
                        }
                        std::fs::remove_file(&b)?;
                    } else {
                        std::fs::remove_file(&b)?;
                        for _ in 0..(x.ino() - y.ino()).min(5000) {
                            std::fs::write(rs[1].root.join("skip"), "")?;
                            std::fs::remove_file(rs[1].root.join("skip"))?;
                        }
                        std::fs::remove_file(&a)?;
                    }
                }
            }
        }
        let case = Case { first: vec![], second: vec![], links: vec![], coarse: c.coarse, steps: vec![] };
        let mut xs: Vec<One> = vec![];
        for r in rs {
            let tree = c09::no_db(read_tree(&r.root, &[])?);
            r.must(&["commit", "-m", "base"])?;
            xs.push(One { r, tree });
        }
        if c.order {
            xs.reverse();
        }
        std::thread::sleep(WAIT);
        for _ in 0..2 {
            for x in &xs {
                let o = command(env, &case, x, &home, &["compare".to_string()], None, false)?;
                c09::judge(&o, &x.tree, &x.tree, None, "compare")?;
            }
        }
        out.label(same > 0, "same inode number and time on two devices");
        out.nontrivial = same > 0;
        Ok(out)
    })();
    for t in &tops {
        let _ = std::fs::remove_dir_all(t);
    }
    res
}

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "Two repositories share a cache. Rounds of edits (most keep size and modification time, some behind symbolic links), real waits of 3 s or none, \
               and commands, on time stamps of full or one-second resolution; now and then a file changes while it is being read. \
               Every command is run with the shared cache and again, from the same state, without a cache: outputs and refs must be \
               equal, and status and compare must list the real differences. Non-trivial: a question about settled files or after a \
               hidden edit. Second part: files of equal inode number, times and size on two file systems.",
        assumptions: vec![
            "the clock is not set back",
            "file systems give changed files a new change time, at a resolution of one second or better",
        ],
        parts: vec![
            Box::new(part("histories", 560, 9000, cases, run).threads(96).shrink(60)),
            Box::new(
                part(
                    "devices",
                    48,
                    400,
                    |_| {
                        (vec((0u8..SIZES.len() as u8, 0u8..4, 0u8..4), 1..4), any::<bool>(), any::<bool>())
                            .prop_map(|(files, coarse, order)| Devices { files, coarse, order })
                            .boxed()
                    },
                    devices,
                )
                .threads(24)
                .shrink(20),
            ),
        ],
    }
}
