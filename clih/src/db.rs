//! Looks into the repository database directly, independent of snapcd.
use crate::runner::Fail;
use rusqlite::{Connection, OpenFlags, NO_PARAMS};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Db {
    pub objects: BTreeMap<Vec<u8>, Vec<u8>>,
    pub state: BTreeMap<Vec<u8>, Vec<u8>>,
    /// (id, name, remote, key), oldest first
    pub reflog: Vec<(i64, String, Option<String>, Vec<u8>)>,
}

impl Db {
    pub fn head(&self) -> Option<String> {
        self.state.get(&b"HEAD"[..]).map(|b| String::from_utf8_lossy(b).into_owned())
    }
    /// Entries of a ref, newest first, as printed keys.
    pub fn log(&self, name: &str, remote: Option<&str>) -> Vec<String> {
        self.reflog
            .iter()
            .rev()
            .filter(|x| x.1 == name && x.2.as_deref() == remote)
            .map(|x| crate::fmt::user_key_db(&x.3))
            .collect()
    }
    pub fn refs(&self) -> Vec<(String, Option<String>, Vec<u8>)> {
        self.reflog.iter().map(|x| (x.1.clone(), x.2.clone(), x.3.clone())).collect()
    }
    /// The same apart from the row numbers of the ref entries.
    pub fn same(&self, o: &Db) -> bool {
        self.objects == o.objects && self.state == o.state && self.refs() == o.refs()
    }
    pub fn diff(&self, o: &Db) -> String {
        let mut s = String::new();
        let short = |k: &Vec<u8>| crate::fmt::user_key_db(k)[..9.min(k.len())].to_string();
        let only = |a: &Db, b: &Db| {
            a.objects.keys().filter(|k| !b.objects.contains_key(*k)).map(short).collect::<Vec<_>>()
        };
        s += &format!("objects only in first: {:?}; ", only(self, o));
        s += &format!("only in second: {:?}; ", only(o, self));
        let ch: Vec<_> = self
            .objects
            .iter()
            .filter(|(k, v)| o.objects.get(*k).map(|x| x != *v).unwrap_or(false))
            .map(|x| short(x.0))
            .collect();
        s += &format!("changed: {:?}; ", ch);
        s += &format!("state {:?} / {:?}; refs {} / {} entries", self.head(), o.head(), self.reflog.len(), o.reflog.len());
        s
    }
}

pub fn open(path: &Path) -> Result<Connection, Fail> {
    let c = Connection::open_with_flags(path, OpenFlags::SQLITE_OPEN_READ_WRITE)?;
    Ok(c)
}

/// Reads everything. A hot journal left by a crash is rolled back by this, as by the next command.
pub fn load(path: &Path) -> Result<Db, Fail> {
    let c = open(path)?;
    load_conn(&c)
}

pub fn load_conn(c: &Connection) -> Result<Db, Fail> {
    let mut d = Db::default();
    let tables: Vec<String> = c
        .prepare("SELECT name FROM sqlite_master WHERE type='table'")?
        .query_map(NO_PARAMS, |r| r.get(0))?
        .collect::<Result<_, _>>()?;
    let has = |t: &str| tables.iter().any(|x| x == t);
    if has("data") {
        for r in c
            .prepare("SELECT key, value FROM data")?
            .query_map(NO_PARAMS, |r| Ok((r.get::<_, Vec<u8>>(0)?, r.get::<_, Vec<u8>>(1)?)))?
        {
            let (k, v) = r?;
            d.objects.insert(k, v);
        }
    }
    if has("state") {
        for r in c
            .prepare("SELECT key, value FROM state")?
            .query_map(NO_PARAMS, |r| Ok((r.get::<_, Vec<u8>>(0)?, r.get::<_, Vec<u8>>(1)?)))?
        {
            let (k, v) = r?;
            d.state.insert(k, v);
        }
    }
    if has("reflog") {
        for r in c.prepare("SELECT id, refname, remote, key FROM reflog ORDER BY id")?.query_map(
            NO_PARAMS,
            |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?)),
        )? {
            d.reflog.push(r?);
        }
    }
    Ok(d)
}

pub fn put_object(path: &Path, key: &[u8], value: &[u8]) -> Result<(), Fail> {
    let c = open(path)?;
    c.execute("INSERT OR REPLACE INTO data VALUES (?, ?)", rusqlite::params![key, value])?;
    Ok(())
}

pub fn delete_object(path: &Path, key: &[u8]) -> Result<(), Fail> {
    let c = open(path)?;
    c.execute("DELETE FROM data WHERE key=?", rusqlite::params![key])?;
    Ok(())
}
