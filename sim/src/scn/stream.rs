//! C03: collections built from streams that repeat, reorder, misreport their length or fail.
use super::*;
use crate::rt::arena::{self, out_lib};
use crate::rt::inst::{reg, E};
use smallvec::Array;
use std::collections::BTreeMap;
use vec_collections::{AbstractVecMap, VecMap, VecSet};

pub const C03: Scn = Scn {
    id: "C03",
    run,
    quick: 900_000,
    thorough: 20_000_000,
    rule: "an execution is non-trivial when at least one fault (repeated or reordered part of the stream, false length hint, failing stream, failing or lying comparison) was injected",
    real: &["dedup.rs", "vec_set.rs and vec_map.rs (FromIterator, Extend)", "merge_state.rs", "smallvec, binary-merge, inplace-vec-builder (dependencies, real code)"],
    stub: &["the stream (simulated source with retransmission, reordering, false length hints and failures)", "element, key and value types", "global allocator (deterministic arena)"],
    assumes: &["element destructors do not panic"],
};

/// (key, tag of the key, tag of the value)
type Item = (i32, u32, u32);

/// what an unreliable transport makes of an orderly sequence
fn plan() -> Vec<Item> {
    let n = match draw(24) {
        0 => range(200, 3000),
        1 | 2 => size(300),
        3..=8 => size(60),
        _ => size(24),
    } as usize;
    let distinct = match draw(6) {
        0 => 1,
        1 => range(1, 4),
        2 => range(1, 20),
        3 => (n as u64 / 2).max(1),
        _ => (n as u64).max(1) * pick(&[1, 2, 10]),
    } as i32;
    let shape = draw(7);
    let mut v: Vec<i32> = match shape {
        0 => (0..n).map(|i| i as i32 % distinct).collect(),
        1 => (0..n).map(|i| (i as i64 * distinct as i64 / n.max(1) as i64) as i32).collect(),
        2 => (0..n).rev().map(|i| (i as i64 * distinct as i64 / n.max(1) as i64) as i32).collect(),
        3 => {
            // sorted, then one element that is out of place, then few values over and over
            let h = n / 2;
            (0..n).map(|i| if i < h { i as i32 * 2 } else { ((i * 7) % distinct as usize) as i32 }).collect()
        }
        4 => {
            let p = range(1, 40) as usize;
            (0..n).map(|i| (i % p) as i32 * 3 + (i / p) as i32).collect()
        }
        _ => {
            let mut r = Rng(draw(1 << 30));
            (0..n).map(|_| (r.next() % distinct as u64) as i32).collect()
        }
    };
    // network: windows sent again, windows swapped
    for _ in 0..draw(4) {
        if v.len() < 2 {
            break;
        }
        let _s = span();
        let a = idx(v.len());
        let l = 1 + idx((v.len() - a).min(64));
        if coin() {
            let w: Vec<i32> = v[a..a + l].to_vec();
            let at = idx(v.len() + 1);
            v.splice(at..at, w);
            fired(F::stream_dup);
        } else {
            let w: Vec<i32> = v.drain(a..a + l).collect();
            let at = idx(v.len() + 1);
            v.splice(at..at, w);
            fired(F::stream_reorder);
        }
    }
    let t = fresh_tag();
    ctx().steps += v.len() as u64 + 1;
    v.into_iter().enumerate().map(|(i, k)| (k, t + i as u32, (t + i as u32) ^ 0x4000_0000)).collect()
}

/// the stream as the library sees it; elements come into being as they are delivered
struct Stream<T> {
    items: std::vec::IntoIter<Item>,
    make: fn(Item) -> T,
    per: usize,
    hint: (usize, Option<usize>),
    base_live: usize,
    base_bytes: usize,
    seen: std::collections::HashSet<i32>,
    delivered: usize,
    elem_size: usize,
}
impl<T> Stream<T> {
    fn new(items: &[Item], per: usize, make: fn(Item) -> T) -> Self {
        let n = items.len();
        let hint = match draw(7) {
            0 | 1 => (0, None),
            2 => (n, Some(n)),
            k => {
                fired(F::lying_size_hint);
                match k {
                    3 => (n / 2, Some(n / 2)),
                    4 => (n * 2 + 40, None),
                    5 => (usize::MAX, None),
                    _ => (0, Some(0)),
                }
            }
        };
        Stream {
            items: items.to_vec().into_iter(),
            make,
            per,
            hint,
            base_live: reg().live,
            base_bytes: arena::a().live_bytes,
            seen: Default::default(),
            delivered: 0,
            elem_size: std::mem::size_of::<T>(),
        }
    }
    /// the library asks for the next element: how much does it hold?
    fn bound(&self) {
        if ctx().lie_count > 0 {
            return; // an order that contradicts itself also hides duplicates
        }
        let held = (reg().live - self.base_live) / self.per;
        let d = self.seen.len();
        check!(
            held <= 2 * d + 32,
            "unbounded-intermediate",
            "after {} elements with {d} distinct keys the library holds {held} elements",
            self.delivered
        );
        let bytes = arena::a().live_bytes.saturating_sub(self.base_bytes);
        check!(
            bytes <= self.elem_size * (4 * d + 160),
            "unbounded-intermediate",
            "after {} elements with {d} distinct keys the library holds {bytes} bytes for elements of {} bytes",
            self.delivered,
            self.elem_size
        );
        if held > d + 8 {
            probe("undeduplicated elements held while building");
        }
        if self.delivered > 64 && d * 4 < self.delivered && held < self.delivered / 2 {
            probe("compaction while building");
        }
    }
}
impl<T> Iterator for Stream<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _o = out_lib();
        self.bound();
        callback(K_ITER);
        let i = self.items.next()?;
        self.seen.insert(i.0);
        self.delivered += 1;
        Some((self.make)(i))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn set_elem(i: Item) -> E {
    E::new(i.0, i.1)
}
fn map_elem(i: Item) -> (E, E) {
    (E::new(i.0, i.1), E::new((i.2 % 1000) as i32, i.2))
}

type SM = BTreeMap<i32, u32>;
type MM = BTreeMap<i32, (u32, u32)>;

fn read_set(what: &str, s: &[E]) -> SM {
    let mut r = SM::new();
    let mut last = None;
    for e in s {
        let (k, t) = e.kt();
        check!(last.map(|l| l < k).unwrap_or(true), "order", "{what}: not strictly ascending at {k}");
        last = Some(k);
        r.insert(k, t);
        obs(k as u64);
        obs(t as u64);
    }
    r
}
fn read_map(what: &str, s: &[(E, E)]) -> MM {
    let mut r = MM::new();
    let mut last = None;
    for (k, v) in s {
        let (kk, kt) = k.kt();
        let (_, vt) = v.kt();
        check!(last.map(|l| l < kk).unwrap_or(true), "order", "{what}: keys not strictly ascending at {kk}");
        last = Some(kk);
        r.insert(kk, (kt, vt));
        obs(kk as u64);
        obs(vt as u64);
    }
    r
}
fn first(p: &[Item]) -> SM {
    let mut m = SM::new();
    for i in p {
        m.entry(i.0).or_insert(i.1);
    }
    m
}
fn last(p: &[Item]) -> MM {
    p.iter().map(|i| (i.0, (i.1, i.2))).collect()
}

fn show(p: &[Item]) -> String {
    let k: Vec<i32> = p.iter().take(40).map(|i| i.0).collect();
    format!("{} elements {k:?}{}", p.len(), if p.len() > 40 { "..." } else { "" })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    None,
    StreamFails,
    CmpFails,
    CmpLies,
}
/// decide the fault of the next build
fn arm_stream(n: usize) -> (Mode, Fault) {
    let c = ctx();
    let n = n as u64;
    match weighted(&[5, 3, 3, 1]) {
        1 => {
            c.arm_mask = K_ITER;
            c.arm = 1 + draw(n + 1);
            (Mode::StreamFails, Fault::Panic)
        }
        2 => {
            c.arm_mask = K_CMP;
            c.arm = 1 + draw(match draw(3) {
                0 => 4,
                1 => n + 1,
                _ => 4 * n + 1,
            });
            (Mode::CmpFails, Fault::Panic)
        }
        3 => {
            c.lie = draw(1 << 20) * 2 + 1;
            c.lie_count = 0;
            (Mode::CmpLies, Fault::Lie)
        }
        _ => (Mode::None, Fault::None),
    }
}

fn sets<A: Array<Item = E>>() {
    let mut target: Option<(VecSet<A>, SM)> = None;
    let rounds = 1 + draw(4);
    for _ in 0..rounds {
        let _s = span();
        let p = plan();
        let f = first(&p);
        // a failed attempt is repeated with the same stream until it gets through
        for attempt in 0..4 {
            let (mode, fault) = if attempt == 3 { (Mode::None, Fault::None) } else { arm_stream(p.len()) };
            tr!("set: {} fault {mode:?} target {:?}", show(&p), target.as_ref().map(|t| t.1.len()));
            let st = Stream::new(&p, 1, set_elem);
            match &mut target {
                None => {
                    let r = lib_catch(|| st.collect::<VecSet<A>>());
                    let lied = settle(fault);
                    match r {
                        Ok(s) if lied => {
                            s.as_ref().iter().for_each(|e| e.ok());
                            lib("drop", || drop(s));
                        }
                        Ok(s) => {
                            let got = read_set("collected set", s.as_ref());
                            check!(got == f, "wrong-result", "collecting {} gave {got:?}, expected {f:?}", show(&p));
                            check!(reg().live == got.len(), "element-leak", "{} elements alive, the set holds {}", reg().live, got.len());
                            target = Some((s, got));
                            break;
                        }
                        Err(Stop::Injected) => check!(reg().live == 0, "element-leak", "{} elements alive after a failed collect", reg().live),
                        Err(Stop::Lib(m)) => check!(lied, "panic", "collecting a set: {m}"),
                    }
                }
                Some((s, m)) => {
                    let mut exp = m.clone();
                    for (k, t) in &f {
                        exp.entry(*k).or_insert(*t);
                    }
                    let r = lib_catch(|| s.extend(st));
                    let lied = settle(fault);
                    match r {
                        Ok(()) if !lied => {
                            let got = read_set("extended set", s.as_ref());
                            check!(got == exp, "wrong-result", "extending {m:?} by {} gave {got:?}, expected {exp:?}", show(&p));
                            *m = got;
                            check!(reg().live == m.len(), "element-leak", "{} elements alive, the set holds {}", reg().live, m.len());
                            break;
                        }
                        Err(Stop::Injected) => {
                            let got = read_set("set after a failed extend", s.as_ref());
                            if mode == Mode::StreamFails {
                                check!(got == *m, "old-elements-lost", "the stream failed, the extended set had {m:?} and now has {got:?}");
                                probe("extend interrupted by its stream");
                            } else {
                                for (k, t) in &got {
                                    let old = m.get(k) == Some(t);
                                    let new = p.iter().any(|i| i.0 == *k && i.1 == *t);
                                    check!(old || new, "foreign-after-panic", "after a failed comparison the set holds ({k},{t}) from neither side");
                                }
                                probe("extend interrupted by a comparison");
                            }
                            check!(reg().live == got.len(), "element-leak", "{} elements alive, the set holds {}", reg().live, got.len());
                            *m = got;
                        }
                        Err(Stop::Lib(msg)) if !lied => violation("panic", format!("extending a set: {msg}")),
                        _ => {
                            s.as_ref().iter().for_each(|e| e.ok());
                            lib("drop", || target = None);
                            check!(reg().live == 0, "element-leak", "{} elements alive after everything was dropped", reg().live);
                        }
                    }
                }
            }
        }
    }
    lib("drop", || drop(target.take()));
}

fn maps<A: Array<Item = (E, E)>>() {
    let mut target: Option<(VecMap<A>, MM)> = None;
    let rounds = 1 + draw(4);
    for _ in 0..rounds {
        let _s = span();
        let p = plan();
        let l = last(&p);
        for attempt in 0..4 {
            let (mode, fault) = if attempt == 3 { (Mode::None, Fault::None) } else { arm_stream(p.len()) };
            tr!("map: {} fault {mode:?} target {:?}", show(&p), target.as_ref().map(|t| t.1.len()));
            let st = Stream::new(&p, 2, map_elem);
            match &mut target {
                None => {
                    let r = lib_catch(|| st.collect::<VecMap<A>>());
                    let lied = settle(fault);
                    match r {
                        Ok(s) if lied => {
                            s.as_ref().iter().for_each(|e| e.0.ok());
                            lib("drop", || drop(s));
                        }
                        Ok(s) => {
                            let got = read_map("collected map", s.as_ref());
                            check!(got == l, "wrong-result", "collecting {} gave {got:?}, expected {l:?}", show(&p));
                            check!(reg().live == 2 * got.len(), "element-leak", "{} elements alive, the map holds {}", reg().live, 2 * got.len());
                            target = Some((s, got));
                            break;
                        }
                        Err(Stop::Injected) => check!(reg().live == 0, "element-leak", "{} elements alive after a failed collect", reg().live),
                        Err(Stop::Lib(m)) => check!(lied, "panic", "collecting a map: {m}"),
                    }
                }
                Some((s, m)) => {
                    let mut exp: BTreeMap<i32, u32> = m.iter().map(|(k, v)| (*k, v.1)).collect();
                    for (k, v) in &l {
                        exp.insert(*k, v.1);
                    }
                    let r = lib_catch(|| s.extend(st));
                    let lied = settle(fault);
                    match r {
                        Ok(()) if !lied => {
                            let got = read_map("extended map", s.as_ref());
                            let g2: BTreeMap<i32, u32> = got.iter().map(|(k, v)| (*k, v.1)).collect();
                            check!(g2 == exp, "wrong-result", "extending {m:?} by {} gave {g2:?}, expected {exp:?}", show(&p));
                            *m = got;
                            for k in exp.keys() {
                                let probe_key = E::new(*k, 0);
                                check!(lib("get", || s.get(&probe_key).is_some()), "lookup", "key {k} of an extended map is not found");
                            }
                            check!(reg().live == 2 * m.len(), "element-leak", "{} elements alive, the map holds {}", reg().live, 2 * m.len());
                            break;
                        }
                        Err(Stop::Injected) => {
                            let got = read_map("map after a failed extend", s.as_ref());
                            if mode == Mode::StreamFails {
                                check!(got == *m, "old-elements-lost", "the stream failed, the extended map had {m:?} and now has {got:?}");
                                probe("extend interrupted by its stream");
                            } else {
                                for (k, (_, vt)) in &got {
                                    let old = m.get(k).map(|x| x.1 == *vt).unwrap_or(false);
                                    let new = p.iter().any(|i| i.0 == *k && i.2 == *vt);
                                    check!(old || new, "foreign-after-panic", "after a failed comparison the map holds {k} with a value from neither side");
                                }
                                probe("extend interrupted by a comparison");
                            }
                            check!(reg().live == 2 * got.len(), "element-leak", "{} elements alive, the map holds {}", reg().live, 2 * got.len());
                            *m = got;
                        }
                        Err(Stop::Lib(msg)) if !lied => violation("panic", format!("extending a map: {msg}")),
                        _ => {
                            s.as_ref().iter().for_each(|e| e.0.ok());
                            lib("drop", || target = None);
                            check!(reg().live == 0, "element-leak", "{} elements alive after everything was dropped", reg().live);
                        }
                    }
                }
            }
        }
    }
    lib("drop", || drop(target.take()));
}

fn run() {
    match draw(6) {
        0 => sets::<[E; 2]>(),
        1 => sets::<[E; 1]>(),
        2 => sets::<[E; 16]>(),
        3 => maps::<[(E, E); 2]>(),
        4 => maps::<[(E, E); 1]>(),
        _ => maps::<[(E, E); 16]>(),
    }
}
