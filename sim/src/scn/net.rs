//! A simulated network: messages are lost, repeated, delayed, overtaken, and links are cut and healed.
use super::*;

pub struct Msg<P> {
    pub from: usize,
    pub to: usize,
    due: u64,
    pub p: P,
}
pub struct Net<P> {
    q: Vec<Msg<P>>,
    cut: Vec<bool>,
    n: usize,
    /// in 32nds
    loss: u64,
    dup: u64,
    now: u64,
    pub faulty: bool,
}
impl<P: Clone> Net<P> {
    pub fn new(n: usize) -> Net<P> {
        Net { q: Vec::new(), cut: vec![false; n * n], n, loss: pick(&[4u64, 0, 12]), dup: pick(&[4u64, 0, 12]), now: 0, faulty: true }
    }
    pub fn len(&self) -> usize {
        self.q.len()
    }
    pub fn send(&mut self, from: usize, to: usize, p: P) {
        if self.faulty && self.cut[from * self.n + to] {
            fired(F::msg_drop);
            return;
        }
        if self.faulty && chance(self.loss, 32) {
            tr!("    !! a message from {from} to {to} is lost");
            fired(F::msg_drop);
            return;
        }
        if self.faulty && chance(self.dup, 32) {
            tr!("    !! a message from {from} to {to} is repeated");
            fired(F::msg_dup);
            let due = self.now + draw(30);
            self.q.push(Msg { from, to, due, p: p.clone() });
        }
        let mut due = self.now + 1;
        if self.faulty && chance(1, 4) {
            fired(F::msg_delay);
            due += draw(40);
        }
        self.q.push(Msg { from, to, due, p });
    }
    /// the next message that arrives; time passes
    pub fn deliver(&mut self) -> Option<Msg<P>> {
        if self.q.is_empty() {
            return None;
        }
        let first = (0..self.q.len()).min_by_key(|i| self.q[*i].due).unwrap();
        let i = if self.faulty && chance(1, 4) { idx(self.q.len()) } else { first };
        if self.q[i].due > self.q[first].due {
            fired(F::msg_reorder);
        }
        let m = self.q.remove(i);
        self.now = self.now.max(m.due) + 1;
        ctx().sim_time += 1_000_000;
        if self.faulty && self.cut[m.from * self.n + m.to] {
            fired(F::msg_drop);
            return None;
        }
        Some(m)
    }
    /// cut a random set of links, or mend all
    pub fn disturb(&mut self) {
        if self.cut.iter().any(|c| *c) && coin() {
            self.heal();
            fired(F::heal);
            return;
        }
        fired(F::partition);
        if coin() {
            // two sides
            let side: Vec<bool> = (0..self.n).map(|_| coin()).collect();
            for a in 0..self.n {
                for b in 0..self.n {
                    self.cut[a * self.n + b] = side[a] != side[b];
                }
            }
            tr!("    !! partition {side:?}");
        } else {
            let i = idx(self.cut.len());
            self.cut[i] = true;
            tr!("    !! link {} -> {} cut", i / self.n, i % self.n);
        }
    }
    pub fn heal(&mut self) {
        self.cut.iter_mut().for_each(|c| *c = false);
    }
    /// messages to a node that is gone
    pub fn lose_to(&mut self, to: usize) {
        let before = self.q.len();
        self.q.retain(|m| m.to != to);
        if self.q.len() < before {
            fired(F::msg_drop);
        }
    }
    pub fn clear(&mut self) {
        self.q.clear();
    }
}
