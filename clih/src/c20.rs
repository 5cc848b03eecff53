//! C20: unchanged data is stored once; small edits cost little.
use crate::{cli::*, db, db::Db, fmt, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const PATHS: &[&str] = &["big", "b/two", "b/c/three", "four", "b/five"];
const BLOCK: usize = 65536;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Overwrite in place: where, how much, with what
    Over(u8, u32, u32, u32),
    Append(u8, u32, u32),
    /// Several small overwrites at once
    Many(u8, Vec<(u32, u8)>),
    Copy(u8, u8),
    Rename(u8, u8),
    /// A new file of the blocks of another, in another order
    Shuffle(u8, u32),
    Nothing,
    Touch,
    /// The first content again
    Back,
    /// Small files elsewhere
    Small(u16, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Path, seed, size, kind of content
    files: Vec<(u8, u32, u32, u8)>,
    /// Also a tree of small files around
    around: Node,
    ops: Vec<(Op, u8)>,
}

fn size(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![1 => 1u32..300_000, 6 => 300_000u32..max, 2 => (1u32..max / 65536, 0u32..5).prop_map(|(a, b)| (a * 65536 + b).saturating_sub(2))].boxed()
}

fn op() -> BoxedStrategy<Op> {
    let f = || 0u8..PATHS.len() as u8;
    let len = || prop_oneof![4 => 1u32..100, 2 => 100u32..40_000, 1 => 40_000u32..200_000];
    prop_oneof![
        6 => (f(), any::<u32>(), len(), any::<u32>()).prop_map(|(a, b, c, d)| Op::Over(a, b, c, d)),
        4 => (f(), len(), any::<u32>()).prop_map(|(a, b, c)| Op::Append(a, b, c)),
        2 => (f(), vec((any::<u32>(), any::<u8>()), 1..5)).prop_map(|(a, b)| Op::Many(a, b)),
        2 => (f(), f()).prop_map(|(a, b)| Op::Copy(a, b)),
        1 => (f(), f()).prop_map(|(a, b)| Op::Rename(a, b)),
        1 => (f(), any::<u32>()).prop_map(|(a, b)| Op::Shuffle(a, b)),
        2 => Just(Op::Nothing),
        1 => Just(Op::Touch),
        1 => Just(Op::Back),
        2 => (any::<u16>(), any::<u32>()).prop_map(|(a, b)| Op::Small(a, b)),
    ]
    .boxed()
}

fn cases(max: u32, n: usize) -> impl Fn(Tier) -> BoxedStrategy<Case> + Sync + Send {
    move |_| {
        (
            vec((0u8..PATHS.len() as u8, any::<u32>(), size(max), 0u8..6), 1..4),
            tree_with(small_bytes(), name(), 3, 3),
            vec((op(), 0u8..6), 1..n),
        )
            .prop_map(|(files, around, ops)| Case { files, around, ops })
            .boxed()
    }
}

fn bytes(seed: u32, n: usize, kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => {
            let mut v = Vec::with_capacity(n + 20);
            let mut i = seed as u64;
            while v.len() < n {
                v.extend(format!("line {}\n", i).as_bytes());
                i += 1;
            }
            v.truncate(n);
            v
        }
        _ => rnd_bytes(seed as u64, n),
    }
}

/// What may be added for a file that differs from a stored one in these byte ranges.
#[derive(Default, Clone, Copy, Debug)]
struct Budget {
    objects: usize,
    bytes: usize,
}

impl Budget {
    fn range(&mut self, from: usize, to: usize) {
        if to > from {
            let n = (to - 1) / BLOCK - from / BLOCK + 1;
            self.objects += 4 * (n + 2) + 12;
            self.bytes += (n + 3) * (BLOCK + 2000);
        }
    }
    /// The entry of a file at a path: itself and the directories above
    fn entry(&mut self, path: &str) {
        self.objects += 2 + path.matches('/').count();
    }
}

fn blob_bytes(new: &[&Vec<u8>]) -> usize {
    new.iter().filter(|v| fmt::decode_object(v).map(|o| o.objtype == "FileBlob").unwrap_or(false)).map(|v| v.len()).sum()
}

fn store(r: &Repo, how: u8, n: usize) -> Result<(), Fail> {
    match how {
        0 => {
            r.must(&["insert", "."])?;
        }
        _ => {
            let m = format!("c{}", n);
            r.must(&["commit", "-m", &m])?;
        }
    }
    Ok(())
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let mut work = model(&c.around);
    work.dir_mut().remove(".snapcd");
    for q in PATHS {
        work.remove(q.split('/').next().unwrap());
    }
    for (p, seed, n, kind) in &c.files {
        work.put(PATHS[*p as usize % PATHS.len()], M::F(std::sync::Arc::new(bytes(*seed, *n as usize, *kind))));
    }
    let first = work.clone();
    sync_tree(&r.root, &work, &[".snapcd"])?;
    store(&r, 1, 0)?;
    let mut db: Db = db::load(&r.db())?;
    let keys: Vec<String> = db.log("master", None);
    let total = fmt::fsck(&db).map_err(|e| Fail::Violation(format!("the stored tree is damaged: {}", e)))?.len();
    // Every distinct content once: no two objects with the same bytes (keys are hashes), and equal files share all.
    let distinct: std::collections::HashSet<&Vec<u8>> = db.objects.values().collect();
    if distinct.len() != db.objects.len() {
        viol!("{} objects, {} different ones", db.objects.len(), distinct.len());
    }
    let mut stored: Vec<M> = vec![work.clone()];
    let _ = (keys, total);
    for (n, (o, how)) in c.ops.iter().enumerate() {
        let before = work.clone();
        let file = |w: &M, i: &u8| -> Option<(&'static str, Vec<u8>)> {
            // The given one, or the next there is
            (0..PATHS.len()).find_map(|d| {
                let q = PATHS[(*i as usize + d) % PATHS.len()];
                match w.get(q) {
                    Some(M::F(b)) => Some((q, (**b).clone())),
                    _ => None,
                }
            })
        };
        let mut b = Budget::default();
        let mut big = 0;
        match o {
            Op::Over(i, at, len, seed) => {
                if let Some((q, mut v)) = file(&work, i) {
                    if !v.is_empty() {
                        let from = (*at as u64 * v.len() as u64 >> 32) as usize;
                        let to = (from + *len as usize).min(v.len());
                        let new = rnd_bytes(*seed as u64, to - from);
                        v[from..to].copy_from_slice(&new);
                        b.range(from, to);
                        big = v.len();
                        b.entry(q);
                        work.put(q, M::F(std::sync::Arc::new(v)));
                    }
                }
            }
            Op::Append(i, len, seed) => {
                if let Some((q, mut v)) = file(&work, i) {
                    let from = v.len();
                    v.extend(rnd_bytes(*seed as u64, *len as usize));
                    b.range(from.saturating_sub(1), v.len());
                    big = from;
                    b.entry(q);
                    work.put(q, M::F(std::sync::Arc::new(v)));
                }
            }
            Op::Many(i, places) => {
                if let Some((q, mut v)) = file(&work, i) {
                    if !v.is_empty() {
                        for (at, x) in places {
                            let from = (*at as u64 * v.len() as u64 >> 32) as usize;
                            v[from] = *x;
                            b.range(from, from + 1);
                        }
                        big = v.len();
                        b.entry(q);
                        work.put(q, M::F(std::sync::Arc::new(v)));
                    }
                }
            }
            Op::Copy(i, j) | Op::Rename(i, j) => {
                if let Some((q, v)) = file(&work, i) {
                    let t = PATHS[*j as usize % PATHS.len()];
                    if t != q {
                        big = v.len();
                        // No new file object even
                        b.objects += t.matches('/').count() + q.matches('/').count() + 1;
                        work.put(t, M::F(std::sync::Arc::new(v)));
                        if let Op::Rename(..) = o {
                            work.remove(q);
                        }
                    }
                }
            }
            Op::Shuffle(i, seed) => {
                if let Some((_, v)) = file(&work, i) {
                    let mut blocks: Vec<&[u8]> = v.chunks(BLOCK).filter(|c| c.len() == BLOCK).collect();
                    let mut s = *seed as u64;
                    for k in (1..blocks.len()).rev() {
                        blocks.swap(k, splitmix(&mut s) as usize % (k + 1));
                    }
                    // Blobs span two blocks, so these are new; but no more than the file
                    let new = blocks.concat();
                    b.range(0, new.len().max(1));
                    b.entry("shuffled");
                    work.put("shuffled", M::F(std::sync::Arc::new(new)));
                }
            }
            Op::Nothing | Op::Touch => {
                if let (Op::Touch, Some((q, v))) = (o, file(&work, &0)) {
                    std::fs::write(r.root.join(q), v)?;
                    big = 1;
                }
            }
            Op::Back => work = first.clone(),
            Op::Small(i, seed) => {
                let dirs: Vec<String> = std::iter::once(String::new()).chain(work.dirs()).collect();
                let q = join(&pick(&dirs, *i).unwrap(), &format!("small{}", seed % 3));
                if !work.get(&q).map(|x| x.is_dir()).unwrap_or(false) {
                    work.put(&q, M::file(format!("{}", seed).as_bytes()));
                    b.range(0, 10);
                    b.objects -= 12;
                    b.entry(&q);
                }
            }
        }
        // A tree that was stored before is there whole, whatever the way back to it
        let known = stored.contains(&work);
        if known {
            b = Budget::default();
        }
        sync_tree(&r.root, &work, &[".snapcd"])?;
        if work == before && *how > 3 {
            // Looking at an unchanged directory adds nothing
            r.must(&[if *how == 4 { "status" } else { "compare" }])?;
            let d = db::load(&r.db())?;
            if d.objects != db.objects {
                viol!("looking at an unchanged directory adds {} objects", d.objects.len() - db.objects.len());
            }
        }
        store(&r, *how, n + 1)?;
        let now = db::load(&r.db())?;
        let new: Vec<&Vec<u8>> = now.objects.iter().filter(|(k, _)| !db.objects.contains_key(*k)).map(|x| x.1).collect();
        let commit = (*how != 0) as usize;
        let what = format!("{:?} of files {:?} ({})", o, work.files().iter().map(|f| (f.0.clone(), f.1.len())).collect::<Vec<_>>(), if commit > 0 { "commit" } else { "insert" });
        if new.len() > b.objects + commit {
            viol!("{} adds {} objects, at most {} are needed", what, new.len(), b.objects + commit);
        }
        let by = blob_bytes(&new);
        if by > b.bytes + 200 {
            viol!("{} adds {} bytes of content, at most {} are needed", what, by, b.bytes);
        }
        // The same again adds nothing, stored from elsewhere too
        let again = now.clone();
        if *how % 2 == 0 {
            r.must(&["insert", "."])?;
        } else {
            let copy = base.join(format!("copy{}", n));
            write_tree(&copy, &work)?;
            r.insert(&copy)?;
            std::fs::remove_dir_all(&copy)?;
        }
        db = db::load(&r.db())?;
        if db.objects != again.objects {
            viol!("storing the same again adds {} objects", db.objects.len() - again.objects.len());
        }
        out.nontrivial |= big > 300_000;
        out.label(big > 300_000 && b.bytes > 0, "edit of a large file");
        out.label(known, "stored before");
        stored.push(work.clone());
    }
    Ok(out)
}

pub fn check() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "Trees with files of up to several megabytes are committed; then generated edits (overwrites in place, appends, copies, \
               renames, blocks shuffled, going back, small files elsewhere), each stored by insert or commit. The objects and bytes added \
               must stay within what the changed 64 KiB blocks, the blob tree and the directories above need; storing the same again, from \
               anywhere, and looking at it adds nothing. Non-trivial: an edit, copy or restoration of a file over 300 kB.",
        assumptions: vec!["the bound allows 64 KiB blocks: a finer division would pass as well, a coarser one fails"],
        parts: vec![
            Box::new(part("edits", 800, 2500, cases(2_500_000, 6), run).shrink(40)),
            Box::new(part("large", 60, 200, cases(16_000_000, 4), run).shrink(15)),
        ],
    }
}
