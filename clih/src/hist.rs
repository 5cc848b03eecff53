//! Histories of commands on one repository.
use crate::{cli::*, db, db::Db, runner::*, tree::*};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub const REFS: &[&str] = &["master", "b", "B", "feature/x", "é", "a b", "-x", "HEAD", "mast", "master2", "r1", "%", "", " b ", "b\t", "/b", "b/", "a//b", LONG, LONGER];
/// Two that differ at the end
const LONG: &str = "wip/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/end";
const LONGER: &str = "wip/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/a-long-name-of-a-branch/end2";
pub const REMOTES: &[&str] = &["r1", "r2", "master", "b", "", "R1"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Edit(Vec<Edit>),
    Insert(u16),
    Commit { msg: String, r: Option<u8>, path: Option<u16> },
    RefUpdate { c: u16, r: Option<u8> },
    ReflogPush { c: u16, r: u8, remote: Option<u8> },
    CommitTree { t: u16, parents: Vec<u16> },
    SetHead(u8),
    CheckoutHead(u8),
    Init,
    Look(u8, u16),
    Bad(u8, u16),
}

pub fn refname(i: u8) -> &'static str {
    REFS[i as usize % REFS.len()]
}

pub fn remote(i: u8) -> &'static str {
    REMOTES[i as usize % REMOTES.len()]
}

fn r() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 2 => Just(1u8), 3 => 0u8..REFS.len() as u8].boxed()
}

pub fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        8 => small_bytes(),
        2 => "([a-c]{0,2}\n){0,5}".prop_map(|s| vec![Seg::Text(s)]),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
    ]
    .boxed()
}

pub fn cmd() -> BoxedStrategy<Cmd> {
    let msg = crate::c04::message();
    prop_oneof![
        6 => vec(edit(content()), 1..4).prop_map(Cmd::Edit),
        2 => any::<u16>().prop_map(Cmd::Insert),
        7 => (msg, prop::option::weighted(0.4, r()), prop::option::weighted(0.15, any::<u16>()))
            .prop_map(|(msg, r, path)| Cmd::Commit { msg, r, path }),
        1 => (any::<u16>(), prop::option::weighted(0.5, r())).prop_map(|(c, r)| Cmd::RefUpdate { c, r }),
        1 => (any::<u16>(), r(), prop::option::weighted(0.7, 0u8..6)).prop_map(|(c, r, remote)| Cmd::ReflogPush { c, r, remote }),
        1 => (any::<u16>(), vec(any::<u16>(), 0..3)).prop_map(|(t, parents)| Cmd::CommitTree { t, parents }),
        1 => r().prop_map(Cmd::SetHead),
        1 => r().prop_map(Cmd::CheckoutHead),
        1 => Just(Cmd::Init),
        3 => (0u8..12, any::<u16>()).prop_map(|(k, s)| Cmd::Look(k, s)),
        2 => (0u8..16, any::<u16>()).prop_map(|(k, s)| Cmd::Bad(k, s)),
    ]
    .boxed()
}

pub fn history(n: usize) -> BoxedStrategy<(Node, Vec<Cmd>)> {
    (tree_with(content(), name(), 2, 3), vec(cmd(), 2..n)).boxed()
}

#[derive(Clone, Debug)]
pub struct CommitM {
    pub key: String,
    pub tree: M,
    pub parents: Vec<String>,
    pub msg: String,
}

/// The repository together with what the model knows of it.
pub struct Hist {
    pub repo: Repo,
    pub base: PathBuf,
    pub work: M,
    pub db: Db,
    pub trees: Vec<(String, M)>,
    pub commits: Vec<CommitM>,
    pub step: usize,
}

/// One executed command.
pub struct Step {
    pub args: Vec<String>,
    pub o: Option<O>,
    pub prev: Db,
    pub expect_ok: Option<bool>,
    /// What an insert or commit stores
    pub stores: Option<M>,
    pub look: Option<u8>,
    /// Where a fetch went and what it should have given
    pub fetched: Option<(PathBuf, M)>,
}

impl Hist {
    pub fn new(env: &Env, base: &Path, tree: &Node) -> Result<Hist, Fail> {
        let repo = Repo::init(env, base)?;
        let mut work = model(tree);
        work.dir_mut().remove(".snapcd");
        sync_tree(&repo.root, &work, &[".snapcd"])?;
        let db = db::load(&repo.db())?;
        Ok(Hist { repo, base: base.to_path_buf(), work, db, trees: vec![], commits: vec![], step: 0 })
    }

    pub fn newest(&self, name: &str, remote: Option<&str>) -> Option<String> {
        self.db.log(name, remote).first().cloned()
    }

    pub fn head(&self) -> String {
        self.db.head().unwrap_or_default()
    }

    /// Whether the newest entry of HEAD is a commit (and so can be compared with).
    fn any_commit(&self, s: u16) -> Option<String> {
        pick(&self.commits.iter().map(|c| c.key.clone()).collect::<Vec<_>>(), s)
    }

    /// The key of some stored object that is not of the kind.
    fn other_kind(&self, n: u16, kind: &str) -> Option<String> {
        let v: Vec<String> = self
            .db
            .objects
            .iter()
            .filter(|(_, o)| crate::fmt::decode_object(o).map(|o| !o.objtype.starts_with(kind)).unwrap_or(false))
            .map(|(k, _)| crate::fmt::user_key_db(k))
            .collect();
        pick(&v, n)
    }

    /// The command line for a command, in terms of the current model; None if it cannot be applied now.
    pub fn args(&self, c: &Cmd) -> Option<Vec<String>> {
        let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
        Some(match c {
            Cmd::Edit(_) | Cmd::Bad(..) => return None,
            Cmd::Insert(n) => {
                let mut v: Vec<String> = self.work.paths().into_iter().map(|x| x.0).collect();
                v.push(".".into());
                s(&["insert", "--", &pick(&v, *n).unwrap()])
            }
            Cmd::Commit { msg, r, path } => {
                let mut v = vec!["commit".to_string(), format!("--message={}", msg)];
                let ps: Vec<String> = self.work.paths().into_iter().map(|x| x.0).collect();
                if let Some(q) = path.and_then(|n| pick(&ps, n)) {
                    v.push(format!("--path={}", q));
                }
                if let Some(r) = r {
                    v.push("--".into());
                    v.push(refname(*r).into());
                }
                v
            }
            Cmd::RefUpdate { c, r } => {
                let mut v = s(&["ref", "update", "--", &self.any_commit(*c)?]);
                if let Some(r) = r {
                    v.push(refname(*r).into());
                }
                v
            }
            Cmd::ReflogPush { c, r, remote: rm } => {
                let mut v = s(&["debug", "reflog-push", "--", &self.any_commit(*c)?, refname(*r)]);
                if let Some(rm) = rm {
                    v.push(remote(*rm).into());
                }
                v
            }
            Cmd::CommitTree { t, parents } => {
                let (k, _) = pick(&self.trees, *t)?;
                let mut v = s(&["debug", "commit-tree", "--", &k]);
                for q in parents {
                    if let Some(q) = self.any_commit(*q) {
                        v.push(q);
                    }
                }
                v
            }
            Cmd::SetHead(r) => s(&["debug", "set-head", "--", refname(*r)]),
            Cmd::CheckoutHead(r) => s(&["checkout-head", "--", refname(*r)]),
            Cmd::Init => s(&["init"]),
            Cmd::Look(k, n) => {
                let tree = pick(&self.trees, *n).map(|x| x.0);
                let commit = self.any_commit(*n);
                let has_head = self.newest(&self.head(), None).is_some();
                match k {
                    0 => s(&["status"]),
                    1 if has_head => s(&["compare"]),
                    2 if has_head => s(&["compare", "--stat"]),
                    3 => s(&["show", &commit?]),
                    4 => s(&["log", &commit?]),
                    5 if has_head => s(&["ref", "log"]),
                    6 => s(&["ref", "log", "--", refname(*n as u8), remote((*n >> 8) as u8)]),
                    7 => s(&["debug", "walk-tree", &tree?]),
                    8 => s(&["debug", "walk-fs-tree", "."]),
                    9 => s(&["debug", "pretty-print", &commit.or(tree)?]),
                    10 => s(&["debug", "get-head"]),
                    11 => s(&["fetch", &tree?, &format!("../fetched{}", self.step)]),
                    12 => {
                        let fs: Vec<String> = self
                            .db
                            .objects
                            .iter()
                            .filter_map(|(k, o)| Some((k, crate::fmt::decode_object(o).ok()?)))
                            .filter(|(_, o)| o.objtype == "FSItemFile" || o.objtype.starts_with("FileBlob"))
                            .map(|(k, _)| crate::fmt::user_key_db(k))
                            .collect();
                        s(&["show", &pick(&fs, *n)?])
                    }
                    13 => s(&["compare", "-p", ".", &tree?]),
                    _ => return None,
                }
            }
        })
    }

    /// Runs a command that is not an edit. Updates nothing of the model but `db`.
    pub fn exec(&mut self, c: &Cmd) -> Result<Option<Step>, Fail> {
        self.step += 1;
        let prev = self.db.clone();
        if let Cmd::Edit(es) = c {
            for e in es {
                apply_edit(&mut self.work, e);
            }
            self.work.dir_mut().remove(".snapcd");
            sync_tree(&self.repo.root, &self.work, &[".snapcd"])?;
            return Ok(None);
        }
        if let Cmd::Bad(k, n) = c {
            let (args, o) = self.bad(*k, *n)?;
            self.db = db::load(&self.repo.db())?;
            return Ok(Some(Step { args, o: Some(o), prev, expect_ok: Some(false), stores: None, look: None, fetched: None }));
        }
        let args = match self.args(c) {
            Some(a) => a,
            None => return Ok(None),
        };
        let mut fetched = None;
        if let Cmd::Look(11, n) = c {
            let (_, m) = pick(&self.trees, *n).unwrap();
            fetched = Some((self.base.join(format!("fetched{}", self.step)), m));
        }
        let stores = match c {
            Cmd::Insert(_) => {
                let q = &args[2];
                Some(if q == "." { self.work.clone() } else { self.work.get(q).unwrap().clone() })
            }
            Cmd::Commit { .. } => Some(match args.iter().find_map(|a| a.strip_prefix("--path=")) {
                Some(q) => self.work.get(q).unwrap().clone(),
                None => self.work.clone(),
            }),
            _ => None,
        };
        let o = self.repo.run(&args)?;
        self.db = db::load(&self.repo.db())?;
        let look = if let Cmd::Look(k, _) = c { Some(*k) } else { None };
        // Looking may legitimately fail (content that is no text, a commit of a single file, …).
        let expect_ok = if look.is_some() { None } else { Some(true) };
        Ok(Some(Step { args, o: Some(o), prev, expect_ok, stores, look, fetched }))
    }

    /// Commands that have to fail, most of them after having done part of their work.
    fn bad(&mut self, k: u8, n: u16) -> Result<(Vec<String>, O), Fail> {
        use std::os::unix::ffi::OsStringExt;
        let s = |x: &[&str]| -> Vec<String> { x.iter().map(|y| y.to_string()).collect() };
        let root = self.repo.root.clone();
        let fresh = format!("fresh content {}", self.step);
        let unknown = crate::fmt::user_key(blake3::hash(format!("{}", n).as_bytes()).as_bytes());
        let mut cleanup: Vec<PathBuf> = vec![];
        let mut full = false;
        let args = match k {
            0 => s(&["insert", "does/not/exist"]),
            1 | 2 | 3 => {
                // New files that sort before an entry that cannot be stored
                let d = root.join("\u{10ffff}bad");
                std::fs::create_dir(&d)?;
                std::fs::write(d.join("a"), &fresh)?;
                if k == 1 {
                    let f = std::ffi::CString::new(d.join("zz").into_os_string().into_vec()).unwrap();
                    unsafe { libc::mkfifo(f.as_ptr(), 0o600) };
                } else {
                    std::fs::write(d.join(std::ffi::OsString::from_vec(vec![b'z', 0xff])), "x")?;
                }
                cleanup.push(d);
                if k == 3 {
                    s(&["insert", "."])
                } else {
                    s(&["commit", "-m", "bad"])
                }
            }
            4 => s(&["show", &unknown]),
            5 => s(&["fetch", &unknown, "../never"]),
            6 => s(&["ref", "update", &unknown, "b"]),
            7 => s(&["commit", "-m", "bad", "-p", "does/not/exist"]),
            8 => {
                // The key cannot be printed
                let f = root.join("\u{10ffff}bad");
                std::fs::write(&f, &fresh)?;
                cleanup.push(f);
                full = true;
                s(&["insert", "."])
            }
            9 => s(&["debug", "commit-tree", &unknown]),
            // Keys of objects of the wrong kind; without one, of none
            10 => s(&["ref", "update", &self.other_kind(n, "Commit").unwrap_or(unknown), refname((n >> 8) as u8)]),
            11 => s(&["ref", "update", &self.other_kind(n, "Commit").unwrap_or(unknown)]),
            12 => s(&["debug", "reflog-push", &self.other_kind(n, "Commit").unwrap_or(unknown), refname((n >> 8) as u8)]),
            13 => s(&["debug", "reflog-push", &self.other_kind(n, "Commit").unwrap_or(unknown), "b", "r1"]),
            14 => s(&["debug", "commit-tree", &self.other_kind(n, "FSItem").unwrap_or(unknown)]),
            _ => match pick(&self.trees, n) {
                Some((t, _)) => s(&["debug", "commit-tree", &t, &self.other_kind(n, "Commit").unwrap_or(unknown)]),
                None => s(&["debug", "commit-tree", &unknown, &unknown]),
            },
        };
        let mut c = self.repo.cmd(&root, &args);
        let o = if full {
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full")?;
            c.stdout(f).stderr(std::process::Stdio::null());
            use std::os::unix::process::ExitStatusExt;
            let st = c.status()?;
            O { code: st.code(), signal: st.signal(), out: vec![], err: vec![] }
        } else {
            output(c)?
        };
        for d in cleanup {
            if d.is_dir() {
                std::fs::remove_dir_all(&d)?;
            } else {
                std::fs::remove_file(&d)?;
            }
        }
        Ok((args, o))
    }

    /// Takes note of what a successful command stored, going by what the store itself says.
    pub fn learn(&mut self, c: &Cmd, st: &Step) -> Result<(), Fail> {
        let o = match &st.o {
            Some(o) if o.ok() => o,
            _ => return Ok(()),
        };
        match c {
            Cmd::Insert(_) => {
                let k = key_of_insert(o)?;
                self.trees.push((k, st.stores.clone().unwrap()));
            }
            Cmd::Commit { msg, r, .. } => {
                let name = r.map(|r| refname(r).to_string()).unwrap_or_else(|| st.prev.head().unwrap_or_default());
                if self.db.log(&name, None).len() <= st.prev.log(&name, None).len() {
                    // Judged elsewhere
                    return Ok(());
                }
                let k = self.newest(&name, None).unwrap();
                let parents = st.prev.log(&name, None).first().cloned().into_iter().collect();
                if let Some(t) = self.tree_of(&k) {
                    self.trees.push((t, st.stores.clone().unwrap()));
                }
                self.commits.push(CommitM { key: k, tree: st.stores.clone().unwrap(), parents, msg: msg.clone() });
            }
            Cmd::CommitTree { t, .. } => {
                let (_, m) = pick(&self.trees, *t).unwrap();
                let k = o.text().trim().to_string();
                let mut parents = st.args[4..].to_vec();
                parents.sort_by_key(|k| crate::fmt::parse_key(k));
                self.commits.push(CommitM { key: k, tree: m, parents, msg: String::new() });
            }
            _ => {}
        }
        Ok(())
    }

    pub fn tree_of(&self, commit: &str) -> Option<String> {
        let k = crate::fmt::parse_key(commit)?;
        let o = crate::fmt::decode_object(self.db.objects.get(&crate::fmt::dbkey(&k))?).ok()?;
        o.keys.first().map(crate::fmt::user_key)
    }
}
