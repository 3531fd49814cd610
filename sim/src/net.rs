//! The simulated network and clock: a discrete-event queue. Every delivery, delay, loss,
//! duplication, reordering and partition is decided by the run's seed; simulated time jumps
//! from one event to the next.
use std::collections::{BTreeMap, BTreeSet};

use crate::ctx::Ctx;

#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    /// out of 100
    pub loss: usize,
    pub dup: usize,
    pub slow: usize,
    pub min_us: u64,
    pub spread_us: u64,
}
impl NetCfg {
    /// Picks how hostile this run's network is. The simplest choice is a perfect network.
    pub fn choose(ctx: &mut Ctx) -> Self {
        let loss = [0, 5, 15, 30][ctx.pick("netcfg.loss", 4)];
        let dup = [0, 10, 30][ctx.pick("netcfg.dup", 3)];
        let slow = [0, 10, 40][ctx.pick("netcfg.slow", 3)];
        let spread_us = [0, 50_000, 2_000_000][ctx.pick("netcfg.spread", 3)];
        NetCfg { loss, dup, slow, min_us: 1_000, spread_us }
    }
}

pub struct Net<M> {
    q: BTreeMap<(u64, u64), (usize, usize, M)>,
    seq: u64,
    pub cfg: NetCfg,
    /// Nodes currently cut off from everybody else.
    cut: BTreeSet<usize>,
    /// Once set, no new network faults are injected.
    pub calm: bool,
}

impl<M: Clone> Net<M> {
    pub fn new(cfg: NetCfg) -> Self {
        Net { q: BTreeMap::new(), seq: 0, cfg, cut: BTreeSet::new(), calm: false }
    }
    fn put(&mut self, at: u64, from: usize, to: usize, m: M) {
        self.seq += 1;
        self.q.insert((at, self.seq), (from, to, m));
    }
    /// A local timer: always fires.
    pub fn timer(&mut self, ctx: &Ctx, node: usize, after_us: u64, m: M) {
        self.put(ctx.now_us + after_us, node, node, m);
    }
    fn delay(&mut self, ctx: &mut Ctx) -> u64 {
        let mut d = self.cfg.min_us;
        if self.cfg.spread_us > 0 {
            d += ctx.u64("net.delay") % self.cfg.spread_us;
        }
        if !self.calm && self.cfg.slow > 0 && ctx.chance("net.slow", self.cfg.slow, 100) {
            ctx.fault("net.delay");
            d += 5_000_000;
        }
        d
    }
    pub fn send(&mut self, ctx: &mut Ctx, from: usize, to: usize, m: M) {
        if !self.calm {
            if self.cut.contains(&from) != self.cut.contains(&to) {
                ctx.fault("net.partition_drop");
                return;
            }
            if self.cfg.loss > 0 && ctx.chance("net.drop", self.cfg.loss, 100) {
                ctx.fault("net.loss");
                return;
            }
            if self.cfg.dup > 0 && ctx.chance("net.dup", self.cfg.dup, 100) {
                ctx.fault("net.duplicate");
                let d = self.delay(ctx);
                self.put(ctx.now_us + d, from, to, m.clone());
            }
        }
        let d = self.delay(ctx);
        let at = ctx.now_us + d;
        if self.q.keys().next_back().map_or(false, |k| k.0 > at) {
            ctx.fault("net.reorder");
        }
        self.put(at, from, to, m);
    }
    pub fn isolate(&mut self, ctx: &mut Ctx, node: usize) {
        ctx.fault("net.partition");
        self.cut.insert(node);
    }
    pub fn heal(&mut self) {
        self.cut.clear();
    }
    /// Faults stop here; everything sent from now on arrives.
    pub fn quiesce(&mut self) {
        self.calm = true;
        self.cut.clear();
    }
    /// Next event; simulated time moves to it.
    pub fn next(&mut self, ctx: &mut Ctx) -> Option<(usize, usize, M)> {
        let k = *self.q.keys().next()?;
        let (f, t, m) = self.q.remove(&k)?;
        ctx.now_us = ctx.now_us.max(k.0);
        Some((f, t, m))
    }
    pub fn pending(&self) -> usize {
        self.q.len()
    }
}
