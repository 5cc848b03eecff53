//! C01: whatever is stored as a file reads back byte for byte.
use crate::guard;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::{file, key::Key};
use std::io::{Error, ErrorKind, Read, Write};
use vc::runner::{part, Check, Env, Fail, Out, Res, Tier};
use vc::tree::{self, expand, Content, Seg};
use vc::viol;

/// How a reader hands out its bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// Sizes of successive reads, used in turn (empty: as much as asked for)
    sizes: Vec<u32>,
    /// Every n-th read is interrupted first
    interrupt: Option<u8>,
    /// Fail after this fraction (of 65536) of the content
    fail: Option<u16>,
}

struct Slow<'a> {
    data: &'a [u8],
    pos: usize,
    n: usize,
    plan: &'a Plan,
    fail_at: Option<usize>,
    interrupted: bool,
}

impl<'a> Slow<'a> {
    fn new(data: &'a [u8], plan: &'a Plan) -> Self {
        let fail_at = plan.fail.map(|f| data.len() * f as usize / 65536);
        Slow { data, pos: 0, n: 0, plan, fail_at, interrupted: false }
    }
}

impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(k) = self.plan.interrupt {
            if !self.interrupted && self.n % (k as usize + 1) == 0 {
                self.interrupted = true;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
        }
        self.interrupted = false;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if !self.plan.sizes.is_empty() {
            n = n.min(self.plan.sizes[self.n % self.plan.sizes.len()].max(1) as usize);
        }
        self.n += 1;
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts a few bytes at a time, and possibly fails.
struct SlowW {
    got: Vec<u8>,
    max: usize,
    fail_at: Option<usize>,
    /// Every how many calls it is interrupted, and the calls so far
    interrupt: Option<usize>,
    calls: usize,
}

impl Write for SlowW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt.map(|k| self.calls % k == 0).unwrap_or(false) {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len().min(self.max);
        if let Some(f) = self.fail_at {
            if self.got.len() >= f {
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Vec<(Content, Plan)>,
    /// Read with a writer that takes at most this many bytes at a time, and one that fails
    wmax: u16,
    wfail: u16,
    /// Store a second time in another order
    again: bool,
    on_disk: bool,
}

fn plan() -> BoxedStrategy<Plan> {
    let sizes = prop_oneof![
        3 => Just(vec![]),
        2 => vec(prop_oneof![1u32..10, 1u32..5000, 32000u32..33000, 65000u32..66000], 1..4),
        1 => vec(1u32..100, 1..3),
    ];
    let fail = prop_oneof![6 => Just(None), 1 => any::<u16>().prop_map(Some)];
    (sizes, prop::option::weighted(0.2, 0u8..5), fail)
        .prop_map(|(sizes, interrupt, fail)| Plan { sizes, interrupt, fail })
        .boxed()
}

fn cases(c: BoxedStrategy<Content>, n: usize) -> BoxedStrategy<Case> {
    (vec((c, plan()), 1..=n), 1u16..20000, any::<u16>(), any::<bool>(), prop::bool::weighted(0.1))
        .prop_map(|(files, wmax, wfail, again, on_disk)| Case { files, wmax, wfail, again, on_disk })
        .boxed()
}

fn huge(t: Tier) -> BoxedStrategy<Case> {
    let lv = prop_oneof![2 => Just(0u8), 1 => Just(9u8), 2 => Just(1u8), 1 => Just(2u8)];
    // More than 512 nodes of one level; rarely (and only thoroughly) of two.
    let n = if t == Tier::Thorough { 505u32..1100 } else { 505u32..530 };
    let tail = prop_oneof![Just(vec![]), tree::medium_content(), tree::small_bytes()];
    let c = (lv, n, tail.clone(), tail).prop_map(|(l, n, mut a, b)| {
        a.push(Seg::Many(l, n));
        a.extend(b);
        a
    });
    cases(c.boxed(), 1)
}

fn run(env: &Env, c: &Case) -> Res {
    let path = if c.on_disk {
        env.fresh().join("db")
    } else {
        ":memory:".into()
    };
    let mut ds = SqliteDS::new(&path).map_err(|e| Fail::Infra(format!("{:?}", e)))?;
    let mut out = Out::default();
    let datas: Vec<Vec<u8>> = c.files.iter().map(|f| expand(&f.0)).collect();
    let mut keys: Vec<Option<Key>> = vec![];
    for ((_, plan), data) in c.files.iter().zip(&datas) {
        let mut r = Slow::new(data, plan);
        let k = match guard(|| file::put_data(&mut ds, &mut r)) {
            Err(p) => viol!("storing {} bytes panics: {}", data.len(), p),
            Ok(Ok(k)) => {
                if plan.fail.is_some() {
                    viol!("the reader failed after {:?} of {} bytes, but put_data succeeds", r.fail_at, data.len());
                }
                Some(k)
            }
            Ok(Err(e)) => {
                if plan.fail.is_none() {
                    viol!("storing {} bytes fails: {:?}", data.len(), e);
                }
                None
            }
        };
        keys.push(k);
        out.label(data.len() > 32768, "chunked");
        out.label(!plan.sizes.is_empty(), "short-reads");
        out.label(plan.interrupt.is_some(), "interrupted");
        out.label(plan.fail.is_some(), "failing-reader");
    }
    if c.again {
        for i in (0..datas.len()).rev() {
            let k = match guard(|| file::put_data(&mut ds, &datas[i][..])) {
                Err(p) => viol!("storing {} bytes panics: {}", datas[i].len(), p),
                Ok(Err(e)) => viol!("storing {} bytes fails: {:?}", datas[i].len(), e),
                Ok(Ok(k)) => k,
            };
            if let Some(k0) = keys[i] {
                if k0 != k {
                    viol!("{} bytes get key {} and, read otherwise, {}", datas[i].len(), k0, k);
                }
            } else {
                keys[i] = Some(k);
            }
        }
    }
    let ds = if c.on_disk {
        drop(ds);
        SqliteDS::new(&path).map_err(|e| Fail::Infra(format!("{:?}", e)))?
    } else {
        ds
    };
    for (k, data) in keys.iter().zip(&datas) {
        let k = match k {
            Some(k) => *k,
            None => continue,
        };
        let mut w = SlowW { got: vec![], max: c.wmax as usize, fail_at: None, interrupt: (c.wmax % 3 == 0).then_some(2 + c.wmax as usize % 5), calls: 0 };
        match guard(|| file::read_data(&ds, k, &mut w)) {
            Err(p) => viol!("reading {} bytes panics: {}", data.len(), p),
            Ok(Err(e)) => viol!("reading {} bytes fails: {:?}", data.len(), e),
            Ok(Ok(())) => {}
        }
        if w.got != *data {
            let at = w.got.iter().zip(data).position(|(a, b)| a != b);
            viol!("stored {} bytes, read {} bytes, first difference at {:?}", data.len(), w.got.len(), at);
        }
        if !data.is_empty() {
            let f = data.len() * c.wfail as usize / 65536;
            let mut w = SlowW { got: vec![], max: c.wmax as usize, fail_at: Some(f), interrupt: None, calls: 0 };
            if let Ok(Ok(())) = guard(|| file::read_data(&ds, k, &mut w)) {
                viol!("the writer failed after {} of {} bytes, but read_data succeeds", f, data.len());
            }
            if w.got != data[..f] {
                viol!("what was written before the writer failed is not a prefix");
            }
        }
    }
    out.nontrivial = datas.iter().any(|d| d.len() > 32768)
        || (datas.len() > 1 && datas.iter().any(|d| !d.is_empty()));
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "Cases are 1-4 files stored in one store through readers with short, interrupted or failing reads and \
               read back through slow and failing writers. Contents: bytes, text, runs, random data with lengths at \
               the chunking boundaries, and 64 KiB blocks with crafted rolling-hash windows cutting the blob tree at \
               every level. Non-trivial: some file is chunked (more than 32 KiB), or several files are stored.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("small", 12000, 100000, |_| cases(tree::small_bytes(), 4), run)),
            Box::new(part(
                "chunked",
                4000,
                40000,
                |_| {
                    cases(
                        prop_oneof![3 => tree::medium_content(), 1 => tree::small_bytes(), 3 => tree::large_content()].boxed(),
                        3,
                    )
                },
                run,
            )),
            Box::new(part("huge", 40, 400, huge, run).shrink(20)),
        ],
    }
}
