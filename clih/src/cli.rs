//! Runs the snapcd binary under test.
use crate::runner::{Env, Fail};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct O {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

impl O {
    /// Whether the command reports success: exit status 0 and no "fatal:" message. Generated contents
    /// and messages never contain that text.
    pub fn ok(&self) -> bool {
        self.code == Some(0) && !contains(&self.out, b"fatal: ")
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn lines(&self) -> Vec<String> {
        self.text().split_terminator('\n').map(|x| x.to_string()).collect()
    }
    pub fn brief(&self) -> String {
        format!(
            "exit {:?} signal {:?} stdout {:?} stderr {:?}",
            self.code,
            self.signal,
            crate::runner::clip(&String::from_utf8_lossy(&self.out), 600),
            crate::runner::clip(&String::from_utf8_lossy(&self.err), 400)
        )
    }
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

/// A repository with its working directory and a home of its own.
#[derive(Clone, Debug)]
pub struct Repo {
    pub bin: PathBuf,
    pub root: PathBuf,
    pub home: PathBuf,
    pub global: Vec<String>,
    /// More of the environment; "-" takes a variable away
    pub env: Vec<(String, String)>,
    pub umask: Option<u32>,
}

impl Repo {
    /// `base/w` is the working directory, `base/h` the home.
    pub fn at(env: &Env, base: &Path) -> Repo {
        let root = base.join("w");
        let home = base.join("h");
        let _ = std::fs::create_dir_all(&root);
        let _ = std::fs::create_dir_all(&home);
        Repo { bin: env.ctx.bin.clone(), root, home, global: vec![], env: vec![], umask: None }
    }

    pub fn init(env: &Env, base: &Path) -> Result<Repo, Fail> {
        let r = Repo::at(env, base);
        let o = r.run(&["init"])?;
        if !o.ok() {
            return Err(Fail::Violation(format!("init fails: {}", o.brief())));
        }
        Ok(r)
    }

    pub fn cmd<S: AsRef<std::ffi::OsStr>>(&self, cwd: &Path, args: &[S]) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(&self.global)
            .args(args)
            .current_dir(cwd)
            .env_clear()
            .env("HOME", &self.home)
            .env("PATH", "/usr/bin:/bin")
            .env("NO_COLOR", "1")
            .env("RUST_BACKTRACE", "0")
            .env("TZ", "UTC")
            .stdin(Stdio::null());
        if let Some(u) = self.umask {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(move || {
                    libc::umask(u as libc::mode_t);
                    Ok(())
                });
            }
        }
        for (k, v) in &self.env {
            if v == "-" {
                c.env_remove(k);
            } else {
                c.env(k, v);
            }
        }
        c
    }

    pub fn run<S: AsRef<std::ffi::OsStr>>(&self, args: &[S]) -> Result<O, Fail> {
        self.run_in(&self.root, args)
    }

    pub fn run_in<S: AsRef<std::ffi::OsStr>>(&self, cwd: &Path, args: &[S]) -> Result<O, Fail> {
        output(self.cmd(cwd, args))
    }

    /// Runs a command that has to succeed for the property to hold.
    pub fn must<S: AsRef<std::ffi::OsStr> + std::fmt::Debug>(&self, args: &[S]) -> Result<O, Fail> {
        let o = self.run(args)?;
        if !o.ok() {
            return Err(Fail::Violation(format!("command {:?} fails: {}", args, o.brief())));
        }
        Ok(o)
    }

    pub fn db(&self) -> PathBuf {
        self.root.join(".snapcd/snapcd.db")
    }

    pub fn insert(&self, path: &Path) -> Result<String, Fail> {
        let o = self.must(&["insert".as_ref(), "--".as_ref(), path.as_os_str()])?;
        key_of_insert(&o)
    }
}

pub fn key_of_insert(o: &O) -> Result<String, Fail> {
    let t = o.text();
    match t.strip_prefix("inserted hash ").map(|x| x.trim_end().to_string()) {
        Some(k) if k.len() == 53 => Ok(k),
        _ => Err(Fail::Violation(format!("insert does not print a key: {}", o.brief()))),
    }
}

/// Processes that are running, and until when they may.
static RUNNING: Mutex<Vec<(u32, Instant, bool)>> = Mutex::new(Vec::new());
/// Commands take a fraction of a second.
const LONGEST: Duration = Duration::from_secs(120);

/// Ends those that take too long. Called once in a while.
pub fn end_overdue() {
    for (pid, t, killed) in RUNNING.lock().unwrap().iter_mut() {
        if t.elapsed() > LONGEST {
            *killed = true;
            unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
        }
    }
}

pub fn watch(pid: u32) {
    RUNNING.lock().unwrap().push((pid, Instant::now(), false));
}

/// Tells whether it was ended.
pub fn unwatch(pid: u32) -> bool {
    let mut r = RUNNING.lock().unwrap();
    let killed = r.iter().any(|x| x.0 == pid && x.2);
    r.retain(|x| x.0 != pid);
    killed
}

/// Limits the memory of a process.
pub fn limit(pid: u32) {
    let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
    unsafe { libc::prlimit(pid as i32, libc::RLIMIT_AS, &l, std::ptr::null_mut()) };
}

pub fn output(mut c: Command) -> Result<O, Fail> {
    use std::os::unix::process::ExitStatusExt;
    let p = c
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| Fail::Infra(format!("running snapcd: {}", e)))?;
    let pid = p.id();
    limit(pid);
    watch(pid);
    let o = p.wait_with_output().map_err(|e| Fail::Infra(format!("running snapcd: {}", e)));
    let killed = unwatch(pid);
    let o = o?;
    if killed {
        return Err(Fail::Violation(format!("{:?} does not end", c)));
    }
    Ok(O { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: o.stderr })
}
