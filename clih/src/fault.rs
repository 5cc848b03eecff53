//! Commands run with the fault injector, from a saved state of a repository with some history.
use crate::{cli::*, db, db::Db, hist::*, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub tree: Node,
    pub cmds: Vec<Cmd>,
    /// Edits made just before the command under test
    pub edits: Vec<Edit>,
    /// A file larger than SQLite's page cache (seed, size)
    pub big: Option<(u32, u32)>,
    /// A directory of so many small files
    #[serde(default)]
    pub wide: u16,
    /// A cache is there already
    pub warm: bool,
    /// No commit is made first
    pub bare: bool,
}

/// A command under test. `Init` with `first` is run where no repository is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Target {
    pub cmd: Cmd,
    pub first: bool,
}

fn small() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => small_bytes(),
        2 => "([a-c]{0,2}\n){0,5}".prop_map(|s| vec![Seg::Text(s)]),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
    ]
    .boxed()
}

pub fn setup(big: bool) -> BoxedStrategy<Setup> {
    let size = (any::<u32>(), 2_300_000u32..3_600_000);
    let big = if big {
        prop_oneof![2 => size.prop_map(|s| (Some(s), 0)), 1 => (100u16..400).prop_map(|n| (None, n))].boxed()
    } else {
        Just((None, 0)).boxed()
    };
    (
        tree_with(small(), name(), 2, 4),
        vec(cmd(), 0..6),
        vec(edit(small()), 0..4),
        big,
        any::<bool>(),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(tree, cmds, edits, (big, wide), warm, bare)| Setup { tree, cmds, edits, big, wide, warm, bare })
        .boxed()
}

fn r() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 2 => Just(1u8), 2 => 0u8..REFS.len() as u8].boxed()
}

/// Commands that store something.
pub fn storing() -> BoxedStrategy<Cmd> {
    let msg = crate::c04::message();
    prop_oneof![
        3 => any::<u16>().prop_map(Cmd::Insert),
        1 => Just(Cmd::Insert(65535)),
        6 => (msg, prop::option::weighted(0.4, r()), prop::option::weighted(0.15, any::<u16>()))
            .prop_map(|(msg, r, path)| Cmd::Commit { msg, r, path }),
        2 => (any::<u16>(), prop::option::weighted(0.5, r())).prop_map(|(c, r)| Cmd::RefUpdate { c, r }),
        2 => (any::<u16>(), r(), prop::option::weighted(0.7, 0u8..6)).prop_map(|(c, r, remote)| Cmd::ReflogPush { c, r, remote }),
        2 => (any::<u16>(), vec(any::<u16>(), 0..3)).prop_map(|(t, parents)| Cmd::CommitTree { t, parents }),
        2 => r().prop_map(Cmd::SetHead),
        2 => r().prop_map(Cmd::CheckoutHead),
        1 => Just(Cmd::Init),
    ]
    .boxed()
}

pub fn target() -> BoxedStrategy<Target> {
    prop_oneof![
        12 => storing().prop_map(|cmd| Target { cmd, first: false }),
        2 => (0u8..3, any::<u16>()).prop_map(|(k, s)| Target { cmd: Cmd::Look(k, s), first: false }),
        1 => Just(Target { cmd: Cmd::Init, first: true }),
    ]
    .boxed()
}

pub struct Prep {
    pub h: Hist,
    pub base: PathBuf,
    saved: PathBuf,
    pub before: Db,
    first: bool,
}

pub fn copy_dir(a: &Path, b: &Path) -> Result<(), Fail> {
    std::fs::create_dir_all(b)?;
    for e in std::fs::read_dir(a)? {
        let e = e?;
        let t = b.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), &t)?;
        }
    }
    Ok(())
}

pub fn prepare(env: &Env, s: &Setup, first: bool) -> Result<Prep, Fail> {
    let base = env.fresh();
    let mut h = Hist::new(env, &base, &s.tree)?;
    let home = h.repo.home.clone();
    if first {
        std::fs::remove_dir_all(h.repo.root.join(".snapcd"))?;
        h.db = Db::default();
    } else {
        let start = Cmd::Commit { msg: "start".into(), r: None, path: None };
        for c in (if s.bare { None } else { Some(&start) }).into_iter().chain(&s.cmds) {
            if let Some(st) = h.exec(c)? {
                h.learn(c, &st)?;
            }
        }
    }
    h.exec(&Cmd::Edit(s.edits.clone()))?;
    if let Some((seed, n)) = s.big {
        h.work.put("big", M::F(std::sync::Arc::new(rnd_bytes(seed as u64, n as usize))));
        sync_tree(&h.repo.root, &h.work, &[".snapcd"])?;
    }
    if s.wide > 0 {
        for i in 0..s.wide {
            h.work.put(&format!("wide/{:03}", i), M::file(&i.to_le_bytes()));
        }
        sync_tree(&h.repo.root, &h.work, &[".snapcd"])?;
    }
    if !s.warm {
        std::fs::remove_dir_all(&home)?;
        std::fs::create_dir(&home)?;
    }
    let saved = base.join("saved");
    copy_dir(&home, &saved.join("h"))?;
    if !first {
        copy_dir(&h.repo.root.join(".snapcd"), &saved.join("r"))?;
    }
    let before = h.db.clone();
    Ok(Prep { h, base, saved, before, first })
}

impl Prep {
    pub fn dbdir(&self) -> PathBuf {
        self.h.repo.root.join(".snapcd")
    }
    /// Everything as it was before the command.
    pub fn restore(&self) -> Result<(), Fail> {
        let home = &self.h.repo.home;
        if home.exists() {
            std::fs::remove_dir_all(home)?;
        }
        copy_dir(&self.saved.join("h"), home)?;
        let d = self.dbdir();
        if d.exists() {
            std::fs::remove_dir_all(&d)?;
        }
        if !self.first {
            copy_dir(&self.saved.join("r"), &d)?;
        }
        for e in std::fs::read_dir(&self.base)? {
            let e = e?;
            if e.file_name().to_string_lossy().starts_with("fetched") {
                if e.file_type()?.is_dir() {
                    std::fs::remove_dir_all(e.path())?;
                } else {
                    std::fs::remove_file(e.path())?;
                }
            }
        }
        Ok(())
    }
    pub fn saved_db(&self) -> PathBuf {
        self.saved.join("r")
    }
    /// The command line, falling back on a commit where the command cannot be applied.
    pub fn args(&self, c: &Cmd) -> Vec<String> {
        if let Cmd::Insert(65535) = c {
            return vec!["insert".into(), ".".into()];
        }
        self.h.args(c).unwrap_or_else(|| vec!["commit".into(), "--message=instead".into()])
    }
    /// A command with the injector loaded (but told nothing yet).
    pub fn cmd(&self, env: &Env, args: &[String]) -> Command {
        let mut c = self.h.repo.cmd(&self.h.repo.root, args);
        c.env("LD_PRELOAD", &env.ctx.shim).env("VC_DIR", &self.base).env("VC_NOSLEEP", "1");
        c
    }
    /// Reads what the next command will find, from a copy.
    pub fn state(&self) -> Result<Option<Db>, Fail> {
        look(&self.dbdir(), &self.base.join("look"), self.first)
    }
    pub fn is_before(&self, d: &Option<Db>) -> bool {
        match d {
            None => self.first,
            // An interrupted first init may leave an empty repository.
            Some(d) => d.same(&self.before),
        }
    }
}

/// Loads the database in `dir`, by way of a copy: a journal left there is used, but not used up.
pub fn look(dir: &Path, tmp: &Path, may_miss: bool) -> Result<Option<Db>, Fail> {
    if tmp.exists() {
        std::fs::remove_dir_all(tmp)?;
    }
    if !dir.join("snapcd.db").exists() {
        if may_miss {
            return Ok(None);
        }
        viol!("the database is gone");
    }
    copy_dir(dir, tmp)?;
    let f = tmp.join("snapcd.db");
    let broken = |e: Fail| match e {
        Fail::Infra(m) => Fail::Violation(format!("the repository cannot be read any more: {}", m)),
        e => e,
    };
    let c = db::open(&f).map_err(broken)?;
    let d = db::load_conn(&c).map_err(broken)?;
    let ok: String = c
        .query_row("PRAGMA integrity_check", rusqlite::NO_PARAMS, |r| r.get(0))
        .map_err(|e| Fail::Violation(format!("the repository cannot be checked any more: {}", e)))?;
    if ok != "ok" {
        viol!("the database is damaged: {}", ok);
    }
    Ok(Some(d))
}

pub const K_OPEN: u8 = 1;
pub const K_READ: u8 = 2;
pub const K_WRITE: u8 = 3;
pub const K_SYNC: u8 = 4;
pub const K_TRUNC: u8 = 5;
pub const K_UNLINK: u8 = 6;
pub const K_MKDIR: u8 = 7;
pub const K_RENAME: u8 = 8;
pub const K_STAT: u8 = 9;
pub const K_DIR: u8 = 10;
pub const K_LOCK: u8 = 11;

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: u8,
    pub off: i64,
    pub len: i64,
    pub path: String,
    pub data: Vec<u8>,
}

/// Parses what the injector wrote to VC_LOG.
pub fn read_log(p: &Path) -> Result<Vec<Op>, Fail> {
    let b = std::fs::read(p)?;
    let mut v = vec![];
    let mut i = 0;
    let i64_at = |i: usize| i64::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]]);
    while i + 21 <= b.len() {
        let kind = b[i];
        let (off, len) = (i64_at(i + 1), i64_at(i + 9));
        let pl = u32::from_le_bytes([b[i + 17], b[i + 18], b[i + 19], b[i + 20]]) as usize;
        i += 21;
        let path = String::from_utf8_lossy(&b[i..i + pl]).into_owned();
        i += pl;
        let dl = i64_at(i) as usize;
        i += 8;
        let data = b[i..i + dl].to_vec();
        i += dl;
        v.push(Op { kind, off, len, path, data });
    }
    Ok(v)
}

/// Output without the order of lines where it is of no account.
pub fn canon(args: &[String], out: &[u8]) -> Vec<u8> {
    if ["debug", "status", "compare", "checkout-head"].contains(&args[0].as_str()) {
        let mut v: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
        v.sort();
        v.join(&b'\n')
    } else {
        out.to_vec()
    }
}
