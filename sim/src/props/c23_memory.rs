//! Nodes that keep bundles and scanning keys in memory within a budget, going by the memory
//! use the library reports.
use std::collections::BTreeMap;

use memuse::DynamicUsage;
use nonempty::NonEmpty;
use orchard::bundle::{Authorized, Bundle};
use orchard::keys::PreparedIncomingViewingKey;
use orchard::primitives::redpallas;
use orchard::Proof;

use crate::craft::*;
use crate::ctx::*;
use crate::heap::live;
use crate::net::*;
use crate::plan::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

/// A caller's own amount type that keeps something on the heap.
struct Heavy(Vec<u8>);
impl DynamicUsage for Heavy {
    fn dynamic_usage(&self) -> usize {
        self.0.capacity()
    }
    fn dynamic_usage_bounds(&self) -> (usize, Option<usize>) {
        (self.0.len(), Some(self.0.capacity()))
    }
}

/// Releases what is held and compares with what was said about it.
fn release<T: DynamicUsage>(ctx: &mut Ctx, x: T, what: &str) -> Res<usize> {
    let said = x.dynamic_usage();
    let (lo, hi) = x.dynamic_usage_bounds();
    let before = live();
    drop(x);
    let held = before - live();
    ctx.check_eq(said as isize, held, "memory-use", &format!("reported memory use of {what}"))?;
    ctx.check(lo <= said && hi.map_or(true, |h| said <= h), "memory-bounds", || format!("{what}: {said} is outside of {lo}..{hi:?}"))?;
    Ok(said)
}

/// What a peer sent, in memory: vectors may have room to spare.
fn parse(ctx: &mut Ctx, w: &Wire) -> Option<Auth> {
    let spare = |ctx: &mut Ctx, n: usize| match ctx.pick("spare", 3) {
        0 => n,
        1 => n + ctx.pick("spare.some", 64),
        _ => n * 2 + 1,
    };
    let mut acts = Vec::with_capacity(spare(ctx, w.actions.len()));
    for (a, s) in w.actions.iter().zip(&w.sigs) {
        acts.push(action_from(a, Sig::from(*s))?);
    }
    let mut proof = Vec::with_capacity(spare(ctx, w.proof.len()));
    proof.extend_from_slice(&w.proof);
    Some(Bundle::from_parts(
        NonEmpty::from_vec(acts)?,
        orchard::bundle::Flags::from_byte(w.flags)?,
        w.balance,
        Option::from(orchard::tree::Anchor::from_bytes(w.anchor))?,
        Authorized::from_parts(Proof::new(proof), redpallas::Signature::from(w.binding)),
    ))
}

#[derive(Clone)]
enum Msg {
    Deliver(usize),
    Expire(u64),
    Block,
    Restart,
}

struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        // What peers have to offer: bundles of all sizes, honest or not.
        let parties = make_parties(ctx, 2);
        let mut offers: Vec<Wire> = vec![];
        let base = published(ctx, &parties, 1, 4)?;
        for _ in 0..ctx.range("offers", 1, 8) {
            let n = match ctx.pick("offer.size", 4) {
                0 => 1,
                1 => 2,
                2 => ctx.range("offer.actions", 3, 12),
                _ => ctx.range("offer.actions", 13, 60),
            };
            let plen = match ctx.pick("offer.proof", 4) {
                0 => Wire::canonical_proof_len(n),
                1 => 0,
                2 => ctx.pick("offer.prooflen", 4096),
                _ => ctx.pick("offer.prooflen", 1 << 20),
            };
            let actions: Vec<_> = (0..n).map(|_| base[ctx.pick("offer.action", base.len())].a.clone()).filter(parses).collect();
            if actions.is_empty() {
                continue;
            }
            let n = actions.len();
            offers.push(Wire { actions, flags: 3, balance: 0, anchor: [0; 32], proof: vec![7; plen], sigs: vec![[9; 64]; n], binding: [1; 64] });
        }
        // Bundles a wallet made itself are kept as well.
        let mut own: Vec<Auth> = vec![];
        for _ in 0..ctx.range("own", 0, 2) {
            let plan = make_plan(ctx, PlanCfg { max_spends: 3, max_outs: 4, ..Default::default() });
            let rng = ctx.rng("own");
            let custom = ctx.pick("custom", 2) == 1;
            if let Some((b, _)) = plan.build_ok(ctx, custom, rng)? {
                let len = ctx.pick("own.proof", 9000);
                let proof = vec![3; len];
                let msg = [4; 32];
                let rng = ctx.rng("own.sign");
                let b = attach_proof(b, proof);
                let a = if ctx.pick("own.helper", 2) == 0 {
                    b.apply_signatures(rng, msg, &plan.asks())
                } else {
                    let mut p = b.prepare(rng, msg);
                    for k in plan.asks() {
                        p = p.sign(ctx.rng("own.sign"), &k);
                    }
                    p.finalize()
                };
                match a {
                    Ok(a) => own.push(a),
                    Err(e) => return ctx.violation("signing-failed", format!("{e:?}")),
                }
            }
        }
        for b in own {
            ctx.probe("own_bundle");
            let n = b.actions().len();
            let c = b.clone();
            release(ctx, b, &format!("a wallet's own bundle of {n}"))?;
            release(ctx, c, &format!("a copy of a wallet's own bundle of {n}"))?;
        }
        // Scanning keys.
        for p in &parties {
            for s in SCOPES {
                let ivk = p.fvk.to_ivk(s);
                let k = PreparedIncomingViewingKey::new(&ivk);
                let c = k.clone();
                release(ctx, k, "a prepared viewing key")?;
                release(ctx, c, "a copy of a prepared viewing key")?;
            }
        }
        for a in &base {
            if let Some(a) = action_from(&a.a, Sig::from([0; 64])) {
                release(ctx, orchard::note_encryption::OrchardDomain::for_action(&a), "a decryption domain")?;
                release(ctx, *a.nullifier(), "a nullifier")?;
                release(ctx, a, "an action")?;
            }
        }
        if offers.is_empty() {
            return Ok(());
        }

        // A node's pool of transactions.
        let budget = 1usize << ctx.range("budget", 12, 22);
        let mut pool: BTreeMap<u64, (usize, usize, Box<Auth>)> = BTreeMap::new();
        let mut total = 0usize;
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        for k in 0..ctx.range("events", 4, 24) {
            let at = ctx.range("event.at", 0, 60) as u64 * 100_000 + k as u64;
            let m = match ctx.pick("event", 8) {
                6 => Msg::Block,
                7 => Msg::Restart,
                _ => Msg::Deliver(ctx.pick("event.offer", offers.len())),
            };
            match m {
                Msg::Deliver(_) => {
                    net.send(ctx, 1, 0, m);
                }
                _ => net.timer(ctx, 0, at, m),
            }
        }
        let mut id = 0;
        loop {
            let Some((_, _, m)) = net.next(ctx) else { break };
            match m {
                Msg::Deliver(k) => {
                    let w = offers[k].clone();
                    let before = live();
                    let Some(b) = parse(ctx, &w) else { return ctx.violation("parse", "an offered bundle does not parse") };
                    let _ = before;
                    let use_ = b.dynamic_usage();
                    ctx.log(format!("offer {k}: {} actions, proof of {}, {use_} bytes", w.actions.len(), w.proof.len()));
                    ctx.state(&format!("{}/{}", w.actions.len(), w.proof.len() / 1024));
                    if use_ > budget {
                        ctx.probe("too_big");
                        release(ctx, b, "a refused bundle")?;
                        continue;
                    }
                    while total + use_ > budget {
                        // Evict one of the run's choosing.
                        let keys: Vec<u64> = pool.keys().copied().collect();
                        let v = keys[ctx.pick("evict", keys.len())];
                        let (_, said, b) = pool.remove(&v).unwrap();
                        ctx.probe("evicted");
                        let now = release(ctx, *b, "an evicted bundle")?;
                        ctx.check_eq(now, said, "memory-drift", "memory use between admission and eviction")?;
                        total -= said;
                    }
                    id += 1;
                    total += use_;
                    pool.insert(id, (k, use_, Box::new(b)));
                    net.timer(ctx, 0, 3_000_000, Msg::Expire(id));
                }
                Msg::Expire(v) => {
                    if let Some((_, said, b)) = pool.remove(&v) {
                        ctx.probe("expired");
                        release(ctx, *b, "an expired bundle")?;
                        total -= said;
                    }
                }
                Msg::Block => {
                    // Mined: converted on the way out, with the block's own amounts.
                    if let Some((_, (_, said, b))) = pool.pop_first() {
                        ctx.probe("mined");
                        total -= said;
                        let len = ctx.pick("heavy", 300);
                        let room = ctx.pick("heavy.room", 100);
                        let r = b.try_map_value_balance(|_| -> Result<Heavy, ()> {
                            let mut v = Vec::with_capacity(len + room);
                            v.resize(len, 0);
                            Ok(Heavy(v))
                        });
                        match r {
                            Ok(b) => {
                                release(ctx, b, "a bundle with the caller's amounts")?;
                            }
                            Err(()) => return ctx.violation("conversion", "an infallible conversion failed"),
                        }
                    }
                }
                Msg::Restart => {
                    ctx.fault("crash.restart");
                    // Everything at once: the node's total is what is freed.
                    let said = total;
                    let count = pool.len();
                    let all: Vec<Auth> = std::mem::take(&mut pool).into_values().map(|x| *x.2).collect();
                    let spine = all.capacity() * std::mem::size_of::<Auth>();
                    let before = live();
                    drop(all);
                    let held = before - live();
                    ctx.check_eq(held, (said + spine) as isize, "memory-total", &format!("memory of {count} bundles against the node's account"))?;
                    total = 0;
                }
            }
            ctx.check(total <= budget, "memory-budget", || format!("{total} of {budget}"))?;
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C23",
        scenario: Box::new(S),
        quick_runs: 1500,
        thorough_runs: 100_000,
        rule: "Each run is a node that keeps bundles from peers (1-60 actions, proofs from nothing to a megabyte, vectors with room to spare, duplicates, delays), evicts, expires, mines and restarts within a memory budget it keeps by the reported memory use; a counting allocator says what each release really frees. Scanning keys, wallets' own bundles, copies and converted bundles likewise.",
        real: &["orchard::bundle", "orchard::keys (prepared keys)", "orchard::action", "orchard::builder"],
        stub: &["proofs (bytes only)", "network", "mempool"],
        assumptions: &["a counting global allocator sees every allocation of the process"],
    }
}
