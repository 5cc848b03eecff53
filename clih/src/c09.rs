//! C09: status and compare list exactly the real differences.
use crate::{cli::*, fmt, report, runner::*, tree::*, viol};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Node,
    /// Rounds of edits, each followed by all questions. Every third entry may go back to the base.
    rounds: Vec<(Vec<Edit>, bool)>,
    sub: u16,
}

pub fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        6 => small_bytes(),
        2 => "[ab\n]{0,4}".prop_map(|s| vec![Seg::Text(s)]),
        1 => (any::<u32>(), edge_size()).prop_map(|(s, n)| vec![Seg::Rnd(s, n)]),
    ]
    .boxed()
}

fn cases(_: Tier) -> BoxedStrategy<Case> {
    (tree_with(content(), name(), 3, 4), vec((vec(edit(content()), 0..4), prop::bool::weighted(0.15)), 1..4), any::<u16>())
        .prop_map(|(base, rounds, sub)| Case { base, rounds, sub })
        .boxed()
}

fn shapes(_: Tier) -> BoxedStrategy<Case> {
    (shape(900), vec((vec(edit(small_bytes()), 0..12), prop::bool::weighted(0.15)), 1..3), any::<u16>())
        .prop_map(|(base, rounds, sub)| Case { base, rounds, sub })
        .boxed()
}

pub fn no_db(mut m: M) -> M {
    m.dir_mut().remove(".snapcd");
    m
}

pub fn judge(o: &O, tree: &M, work: &M, head: Option<&str>, what: &str) -> Result<report::Report, Fail> {
    if !o.ok() {
        viol!("{} fails: {}", what, o.brief());
    }
    let (h, got) = match report::parse(&o.text()) {
        Ok(x) => x,
        Err(e) => viol!("{}: {}: {:?}", what, e, o.text()),
    };
    let want = report::expected(tree, work);
    if got != want {
        viol!("{} lists {:?}\nexpected {:?}\ntree {:?}\nwork {:?}", what, got, want, tree, work);
    }
    match head {
        Some(x) if h != [x.to_string()] => viol!("{} starts with {:?}, expected {:?}", what, h, x),
        None if !h.is_empty() => viol!("{} prints {:?}", what, h),
        _ => {}
    }
    Ok(got)
}

fn run(env: &Env, c: &Case) -> Res {
    let base = env.fresh();
    let r = Repo::init(env, &base)?;
    let mut out = Out::default();
    let tree = no_db(model(&c.base));
    let o = r.must(&["status"])?;
    if o.text() != "HEAD: master (no commits on master)\n" {
        viol!("status of a new repository: {:?}", o.text());
    }
    sync_tree(&r.root, &tree, &[".snapcd"])?;
    // Nothing committed yet: a difference is any file or directory.
    let o = r.run(&["checkout-head", "other"])?;
    head_switch(&r, &o, tree.dir().is_empty(), "other")?;
    r.must(&["debug", "set-head", "master"])?;
    r.must(&["commit", "-m", "base"])?;
    let ck = crate::db::load(&r.db())?.log("master", None)[0].clone();
    let mut objs = fmt::Objs::new();
    let tk = fmt::user_key(&fmt::put_tree(&mut objs, &tree));
    let head = format!("HEAD: master [{}]", &ck[..8]);
    let mut work = tree.clone();
    let mut rounds = vec![(vec![], false)];
    rounds.extend(c.rounds.clone());
    for (edits, back) in &rounds {
        for e in edits {
            apply_edit(&mut work, e);
        }
        if *back {
            work = tree.clone();
        }
        work = no_db(work);
        sync_tree(&r.root, &work, &[".snapcd"])?;
        let rep = judge(&r.run(&["status"])?, &tree, &work, Some(&head), "status")?;
        judge(&r.run(&["compare"])?, &tree, &work, None, "compare")?;
        judge(&r.run(&["compare", &tk])?, &tree, &work, None, "compare KEY")?;
        // Another directory against the same tree, and a part against a part.
        let rel = r.run(&["compare", "-p", ".", &tk])?;
        judge(&rel, &tree, &work, None, "compare -p .")?;
        let dirs: Vec<String> = work.dirs();
        if let Some(d) = pick(&dirs, c.sub) {
            let w = work.get(&d).unwrap();
            let abs = p(&r.root, &d);
            let o = r.run(&["compare".as_ref(), "-p".as_ref(), abs.as_os_str(), tk.as_ref()])?;
            judge(&o, &tree, w, None, "compare -p DIR")?;
            let tdirs: Vec<String> = tree.dirs();
            if let Some(td) = pick(&tdirs, c.sub) {
                let t = tree.get(&td).unwrap();
                let k = fmt::user_key(&fmt::put_tree(&mut objs, t));
                let rel = format!("./{}", d);
                let o = r.run(&["compare", "-p", &rel, &k])?;
                judge(&o, t, w, None, "compare -p SUBDIR SUBTREE")?;
            }
        }
        let o = r.run(&["checkout-head", "other"])?;
        head_switch(&r, &o, work == tree, "other")?;
        r.must(&["debug", "set-head", "master"])?;
        out.label(rep.is_empty() && !edits.is_empty(), "clean-after-edits");
        out.label(!rep.added.is_empty(), "added");
        out.label(!rep.deleted.is_empty(), "deleted");
        out.label(!rep.modified.is_empty(), "modified");
        out.label(rep.added.intersection(&rep.deleted).next().is_some(), "kind-change");
        out.nontrivial |= !rep.is_empty();
        let now = read_tree(&r.root, &[".snapcd"])?;
        if now != work {
            viol!("the working directory changed from {:?} to {:?}", work, now);
        }
    }
    Ok(out)
}

fn head_switch(r: &Repo, o: &O, clean: bool, to: &str) -> Result<(), Fail> {
    let head = crate::db::load(&r.db())?.head();
    let switched = head.as_deref() == Some(to);
    if o.code != Some(0) {
        viol!("checkout-head fails: {}", o.brief());
    }
    if clean && !switched {
        viol!("checkout-head refuses although nothing differs: {}", o.brief());
    }
    if !clean && switched {
        viol!("checkout-head switches although the working directory differs: {}", o.brief());
    }
    if clean != (o.text() == "Ok, new head.\n") || clean == o.text().contains("Cannot checkout") {
        viol!("checkout-head (clean: {}) prints {:?}", clean, o.text());
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "A generated tree is committed, then the working directory goes through rounds of generated edits (writes, \
               additions, removals, replacements of files by directories and back, moves, copies, restoring). After each, \
               status, compare (HEAD, key, other directory, subdirectory against subtree) and checkout-head are judged against \
               the difference of the two models. Non-trivial: some round has a difference.",
        assumptions: vec![],
        parts: vec![
            Box::new(part("differences", 900, 15000, cases, run)),
            Box::new(part("shapes", 90, 1200, shapes, run).shrink(60)),
        ],
    }
}
