//! C15: followers that mirror the part of a tree below a prefix, fed with differences between versions.
use super::disk::*;
use super::net::*;
use super::tree::*;
use super::*;
use crate::rt::inst::E;

pub const C15: Scn = Scn {
    id: "C15",
    run,
    quick: 700_000,
    thorough: 14_000_000,
    rule: "an execution is non-trivial when at least one network, disk or crash fault happened and a follower applied at least one non-empty difference",
    real: &["RadixTree, ArcRadixTree, LazyRadixTree and their archived forms: filter_prefix, difference(_with), left_combine, inner_combine, union(_with), outer_combine_with, remove_prefix_with, insert, equality", "rkyv (real)"],
    stub: &["network (simulated: loss, repetition, delay, reordering, partitions)", "disks of the source and the followers (simulated: failing and torn writes, failing sync, crashes)", "the source and follower programs (versions, acknowledgements, snapshots)", "key and value types, allocator"],
    assumes: &["messages that arrive are intact (damaged input is the subject of C05 and C06)", "a node saves its state by writing a new file, syncing it and renaming it"],
};

#[derive(Clone)]
enum Msg {
    /// what went away and what came between two versions
    Diff { from: u64, to: u64, gone: &'static [u8], fresh: &'static [u8], mgone: M, mfresh: M },
    Snap { ver: u64, state: &'static [u8] },
    /// a follower tells where it is
    Ask { ver: Option<u64> },
}
struct Version<T> {
    ver: u64,
    t: T,
    m: M,
}
struct Source<T: Flav> {
    hist: Vec<Version<T>>,
    next: u64,
    disk: Disk,
    saved: Option<M>,
}
struct Follower<T> {
    p: Key,
    t: T,
    m: M,
    ver: Option<u64>,
    disk: Disk,
    saved: Option<(u64, M)>,
    applied: u64,
}
const FILE: &str = "state";
const TMP: &str = "state.tmp";
fn save<T: Flav>(d: &mut Disk, t: &T) -> bool {
    let b = lib("archive", || t.archive());
    d.remove(TMP);
    if d.append(TMP, &b).is_err() || d.sync(TMP).is_err() {
        d.remove(TMP);
        return false;
    }
    d.rename(TMP, FILE);
    true
}
fn load<T: Flav>(b: &[u8]) -> Option<T> {
    let b = guard::bump(b)?;
    let a = T::root(b);
    Some(lib("load", || T::from_arch(a)).unwrap())
}
fn put<T>(slot: &mut T, v: T) {
    let old = std::mem::replace(slot, v);
    lib("drop", move || drop(old));
}
fn must<T: AbstractRadixTree<crate::rt::inst::K, E>>(name: &str, what: &str, t: &T, m: &M) {
    let g = read_tree(what, t);
    check!(g == *m, "content", "{name} {what}: {}", diff(&g, m));
}
fn m_gone(a: &M, b: &M) -> M {
    a.iter().filter(|(k, v)| b.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), *v)).collect()
}
/// the entries of `a` that `b` does not have, or has with another value, by one of several ways
fn beyond<T: Flav>(a: &T, b: &T, how: u64) -> T {
    match how {
        0 => lib("left_combine", || a.left_combine(b, |v: &E, w: Option<&E>| if w.is_some_and(|w| w.kt() == v.kt()) { None } else { Some(v.clone()) })),
        1 => lib("left_combine_with", || {
            let mut x = a.clone();
            x.left_combine_with(b, |v, w: &E| w.kt() != v.kt());
            x
        }),
        2 => lib("difference, inner_combine", || {
            // the ones without a counterpart, and the ones with another value
            let mut x = a.difference(b);
            let y = a.inner_combine(b, |v: &E, w: &E| if w.kt() == v.kt() { None } else { Some(v.clone()) });
            x.union_with(&y);
            x
        }),
        _ => lib("inner_combine, difference", || {
            // all but those that are the same in both
            let mut x = a.clone();
            x.inner_combine_with(b, |v, w: &E| w.kt() == v.kt());
            a.difference(&x)
        }),
    }
}
/// one way to turn the older state into the newer one
fn apply<T: Flav, R: AbstractRadixTree<crate::rt::inst::K, E, Materialized = T>>(t: &mut T, gone: &R, fresh: &R, how: u64) {
    match how {
        0 => {
            lib("difference_with", || t.difference_with(gone));
            lib("union_with", || t.union_with(fresh));
        }
        1 => {
            // fresh entries take over from old ones
            lib("difference_with", || t.difference_with(gone));
            lib("outer_combine_with", || {
                t.outer_combine_with(fresh, |v, w| {
                    *v = w.clone();
                    true
                })
            });
        }
        2 => {
            let x = lib("difference", || t.difference(gone));
            put(t, x);
            let x = lib("union", || t.union(fresh));
            put(t, x);
        }
        _ => {
            lib("left_combine_with", || t.left_combine_with(gone, |_, _: &E| false));
            let x = lib("outer_combine", || t.outer_combine(fresh, |_, w| Some(w.clone())));
            put(t, x);
        }
    }
}
impl<T: Flav> Source<T> {
    fn last(&self) -> &Version<T> {
        self.hist.last().unwrap()
    }
    fn commit(&mut self, t: T, m: M) {
        self.next += 1 + draw(2);
        self.hist.push(Version { ver: self.next, t, m });
        if self.hist.len() > 6 {
            let v = self.hist.remove(if coin() { 0 } else { idx(self.hist.len() - 1) });
            lib("drop", move || drop(v.t));
        }
    }
    /// what to tell a follower that is at `ver`; checks the difference before it is sent
    fn news(&self, ver: Option<u64>, p: &[u8]) -> Option<Msg> {
        let new = self.last();
        if ver == Some(new.ver) && !chance(1, 4) {
            return None;
        }
        let nm = m_prefix(&new.m, p);
        let n = lib("filter_prefix", || new.t.filter_prefix(ks(p)));
        must(T::NAME, "filter_prefix", &n, &nm);
        let old = ver.and_then(|v| self.hist.iter().find(|h| h.ver == v));
        let r = match old {
            Some(old) => {
                let om = m_prefix(&old.m, p);
                let o = lib("filter_prefix", || old.t.filter_prefix(ks(p)));
                must(T::NAME, "filter_prefix", &o, &om);
                let gone = beyond(&o, &n, draw(4));
                let fresh = beyond(&n, &o, draw(4));
                let (mgone, mfresh) = (m_gone(&om, &nm), m_gone(&nm, &om));
                must(T::NAME, "what went away", &gone, &mgone);
                must(T::NAME, "what came", &fresh, &mfresh);
                if chance(1, 4) {
                    // both ways, without a network in between
                    let (mut x, mut y) = lib("clone", || (o.clone(), n.clone()));
                    apply(&mut x, &gone, &fresh, draw(4));
                    must(T::NAME, "older version and difference", &x, &nm);
                    apply(&mut y, &fresh, &gone, draw(4));
                    must(T::NAME, "newer version and difference, backwards", &y, &om);
                    if let Some(s) = lib("eq", || x.same(&n)) {
                        check!(s, "not-equal", "{}: the older version with the difference applied does not equal the newer one", T::NAME);
                    }
                    lib("drop", move || drop((x, y)));
                }
                if !mgone.is_empty() || !mfresh.is_empty() {
                    probe("non-empty difference");
                }
                let (g, f) = lib("archive", || (gone.archive(), fresh.archive()));
                lib("drop", move || drop((o, gone, fresh)));
                guard::bump(&g).and_then(|g| guard::bump(&f).map(|f| Msg::Diff { from: old.ver, to: new.ver, gone: g, fresh: f, mgone, mfresh }))
            }
            None => {
                let b = lib("archive", || n.archive());
                guard::bump(&b).map(|b| Msg::Snap { ver: new.ver, state: b })
            }
        };
        lib("drop", move || drop(n));
        r
    }
    fn restart(&mut self) {
        fired(F::node_restart);
        self.disk.crash();
        let (t, m) = match &self.saved {
            Some(m) => match load::<T>(&self.disk.read(FILE)) {
                Some(t) => (t, m.clone()),
                None => return,
            },
            None => (lib("empty", T::empty), M::new()),
        };
        must(T::NAME, "source after a restart", &t, &m);
        for v in std::mem::take(&mut self.hist) {
            lib("drop", move || drop(v.t));
        }
        self.commit(t, m);
    }
    /// a new version
    fn change(&mut self, kg: &mut KeyGen) {
        let _s = span();
        let mut m = self.last().m.clone();
        let mut t = lib("clone", || self.last().t.clone());
        for _ in 0..1 + draw(3) {
            match weighted(&[8, 3, 4, 3, 2, 1]) {
                0 => {
                    let (k, v) = (kg.key(), val());
                    tr!("source: insert {k:?} {v:?}");
                    lib("insert", || t.insert(ks(&k), E::new(v.0, v.1)));
                    m.insert(k, v);
                }
                1 => {
                    let o = gen_map(kg, 6);
                    tr!("source: union with {o:?}");
                    let x = build::<T>(&o);
                    lib("union_with", || t.union_with(&x));
                    lib("drop", move || drop(x));
                    m = m_outer(&m, &o, |v, _| Some(v));
                }
                2 => {
                    let mut o = gen_map(kg, 2);
                    o.extend(m.iter().filter(|_| chance(1, 4)).map(|(k, v)| (k.clone(), *v)));
                    tr!("source: remove {:?}", o.keys());
                    let x = build::<T>(&o);
                    lib("difference_with", || t.difference_with(&x));
                    lib("drop", move || drop(x));
                    m = m_left(&m, &o, |_, _| None);
                }
                3 => {
                    let k = kg.key();
                    if k.is_empty() && !chance(1, 8) {
                        continue;
                    }
                    tr!("source: remove everything below {k:?}");
                    let x = lib("single", || T::single(ks(&k), E::new(0, 0)));
                    lib("remove_prefix_with", || t.remove_prefix_with(&x, |_| true));
                    lib("drop", move || drop(x));
                    m.retain(|l, _| !l.starts_with(&k));
                }
                4 => {
                    // touch the values of a part
                    let o: M = m.iter().filter(|_| coin()).map(|(k, v)| (k.clone(), *v)).collect();
                    let x = build::<T>(&o);
                    tr!("source: change {:?}", o.keys());
                    let tag = fresh_tag();
                    lib("left_combine_with", || {
                        t.left_combine_with(&x, move |v, w: &E| {
                            *v = E::new(w.kt().0 + 1, tag);
                            true
                        })
                    });
                    lib("drop", move || drop(x));
                    m = m_left(&m, &o, |_, w| Some((w.0 + 1, tag)));
                }
                _ => {
                    // back to a version of old
                    let i = idx(self.hist.len());
                    let x = lib("clone", || self.hist[i].t.clone());
                    tr!("source: back to {}", self.hist[i].ver);
                    put(&mut t, x);
                    m = self.hist[i].m.clone();
                }
            }
        }
        must(T::NAME, "source", &t, &m);
        self.commit(t, m);
    }
}
impl<T: Flav> Follower<T> {
    fn hear(&mut self, msg: Msg) -> Option<Msg> {
        match msg {
            Msg::Diff { from, to, gone, fresh, mgone, mfresh } => {
                if self.ver.is_some_and(|v| to <= v) {
                    return None;
                }
                if self.ver != Some(from) {
                    probe("gap noticed");
                    return Some(Msg::Ask { ver: self.ver });
                }
                if coin() {
                    probe("applied straight from the serialized form");
                    apply(&mut self.t, T::root(gone), T::root(fresh), draw(4));
                } else {
                    let (g, f) = lib("load", || (T::from_arch(T::root(gone)).unwrap(), T::from_arch(T::root(fresh)).unwrap()));
                    must(T::NAME, "received difference", &g, &mgone);
                    apply(&mut self.t, &g, &f, draw(4));
                    must(T::NAME, "received difference, after use", &f, &mfresh);
                    lib("drop", move || drop((g, f)));
                }
                self.m.retain(|k, _| !mgone.contains_key(k));
                self.m.extend(mfresh.iter().map(|(k, v)| (k.clone(), *v)));
                if !mgone.is_empty() || !mfresh.is_empty() {
                    self.applied += 1;
                }
                self.ver = Some(to);
            }
            Msg::Snap { ver, state } => {
                if self.ver.is_some_and(|v| ver <= v) {
                    return None;
                }
                probe("snapshot");
                let x = lib("load", || T::from_arch(T::root(state)).unwrap());
                self.m = read_tree("snapshot", &x);
                put(&mut self.t, x);
                self.ver = Some(ver);
            }
            Msg::Ask { .. } => {}
        }
        None
    }
    fn restart(&mut self) {
        fired(F::node_restart);
        self.disk.crash();
        match &self.saved {
            Some((v, m)) => {
                let Some(x) = load::<T>(&self.disk.read(FILE)) else { return };
                (self.ver, self.m) = (Some(*v), m.clone());
                put(&mut self.t, x);
            }
            None => {
                (self.ver, self.m) = (None, M::new());
                put(&mut self.t, lib("empty", T::empty));
            }
        }
        must(T::NAME, "follower after a restart", &self.t, &self.m);
    }
}
/// every version ever committed, for the judge
type All = std::collections::BTreeMap<u64, M>;
fn judge<T: Flav>(i: usize, f: &Follower<T>, all: &All) {
    let want = f.ver.map(|v| m_prefix(&all[&v], &f.p)).unwrap_or_default();
    let g = read_tree("follower", &f.t);
    check!(g == want, "diverged", "{}: follower {i} of {:?} at version {:?}: {}", T::NAME, f.p, f.ver, diff(&g, &want));
}
fn system<T: Flav>() {
    guard::bump_reset();
    let n = [2usize, 1, 3][idx(3)];
    let mut kg = KeyGen::draw();
    let mut src: Source<T> = Source { hist: Vec::new(), next: 0, disk: Disk::new(), saved: None };
    let mut all = All::new();
    let m = gen_map(&mut kg, 16);
    let t = build::<T>(&m);
    src.commit(t, m);
    all.insert(src.last().ver, src.last().m.clone());
    let mut fs: Vec<Follower<T>> = (0..n)
        .map(|_| {
            let k = kg.key();
            let p = if coin() { k[..k.len().min(2)].to_vec() } else { k };
            Follower { p, t: lib("empty", T::empty), m: M::new(), ver: None, disk: Disk::new(), saved: None, applied: 0 }
        })
        .collect();
    tr!("{} source with {:?}, followers of {:?}", T::NAME, src.last().m, fs.iter().map(|f| &f.p).collect::<Vec<_>>());
    let mut net: Net<Msg> = Net::new(n + 1);
    // a follower may start from the state of the moment, without a message
    for f in fs.iter_mut() {
        if coin() {
            let x = lib("filter_prefix", || src.last().t.filter_prefix(ks(&f.p)));
            put(&mut f.t, x);
            f.m = m_prefix(&src.last().m, &f.p);
            f.ver = Some(src.last().ver);
        }
    }
    let arrive = |net: &mut Net<Msg>, src: &Source<T>, fs: &mut Vec<Follower<T>>, all: &All| -> bool {
        let Some(m) = net.deliver() else { return false };
        if m.to == 0 {
            if let Msg::Ask { ver } = m.p {
                if let Some(r) = src.news(ver, &fs[m.from - 1].p) {
                    net.send(0, m.from, r);
                }
            }
        } else {
            let i = m.to - 1;
            if let Some(r) = fs[i].hear(m.p) {
                net.send(m.to, 0, r);
            }
            tr!("follower {i} is at {:?}", fs[i].ver);
            judge(i, &fs[i], all);
        }
        true
    };
    for _ in 0..ops(30) {
        let _s = span();
        let i = idx(n);
        match weighted(&[8, 10, 3, 2, 1, 1, 1, 1]) {
            0 => {
                let before = src.last().ver;
                src.change(&mut kg);
                all.insert(src.last().ver, src.last().m.clone());
                // the source assumes its followers to be up to date
                for (j, f) in fs.iter().enumerate() {
                    if let Some(x) = src.news(Some(before), &f.p) {
                        net.send(0, j + 1, x);
                    }
                }
            }
            1 => {
                arrive(&mut net, &src, &mut fs, &all);
            }
            2 => net.send(i + 1, 0, Msg::Ask { ver: fs[i].ver }),
            3 => {
                let f = &mut fs[i];
                if let Some(v) = f.ver {
                    if save(&mut f.disk, &f.t) {
                        f.saved = Some((v, f.m.clone()));
                    }
                }
            }
            4 => {
                let Source { hist, disk, saved, .. } = &mut src;
                let v = hist.last().unwrap();
                if save(disk, &v.t) {
                    *saved = Some(v.m.clone());
                }
            }
            5 => {
                tr!("    !! follower {i} crashes");
                fired(F::node_crash);
                net.lose_to(i + 1);
                fs[i].restart();
            }
            6 => {
                tr!("    !! the source crashes");
                fired(F::node_crash);
                net.lose_to(0);
                src.restart();
                all.insert(src.last().ver, src.last().m.clone());
            }
            _ => net.disturb(),
        }
    }
    if ctx().fired.iter().enumerate().any(|(i, f)| *f > 0 && i != F::address_reuse as usize) && fs.iter().any(|f| f.applied > 0) {
        nontrivial();
    }
    // the faults stop
    net.faulty = false;
    net.heal();
    let mut rounds = 0;
    loop {
        while arrive(&mut net, &src, &mut fs, &all) {}
        if fs.iter().all(|f| f.ver == Some(src.last().ver)) {
            break;
        }
        rounds += 1;
        check!(rounds <= 2, "liveness", "{}: after {rounds} rounds without faults the followers are at {:?}, the source at {}", T::NAME, fs.iter().map(|f| f.ver).collect::<Vec<_>>(), src.last().ver);
        for (i, f) in fs.iter().enumerate() {
            net.send(i + 1, 0, Msg::Ask { ver: f.ver });
        }
    }
    for (i, f) in fs.iter().enumerate() {
        judge(i, f, &all);
        let x = lib("filter_prefix", || src.last().t.filter_prefix(ks(&f.p)));
        if let Some(s) = lib("eq", || f.t.same(&x)) {
            check!(s, "not-equal", "{}: follower {i} holds the same as the source but does not equal it", T::NAME);
        }
        lib("drop", move || drop(x));
    }
    obs(src.last().ver);
    for v in src.hist {
        must(T::NAME, "kept version", &v.t, &v.m);
        lib("drop", move || drop(v.t));
    }
    for f in fs {
        lib("drop", move || drop(f.t));
    }
}
fn run() {
    match draw(3) {
        0 => system::<Flat>(),
        1 => system::<ArcT>(),
        _ => system::<LazyT>(),
    }
}
