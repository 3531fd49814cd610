//! A batch's verdict is the conjunction of its bundles' own verdicts.
use ff::{Field, PrimeField};
use orchard::bundle::BatchValidator;

use crate::ctx::*;
use crate::net::*;
use crate::refm::*;
use crate::rngs::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

#[derive(Clone)]
struct Item {
    w: Wire,
    msg: [u8; 32],
    what: String,
    /// Its own verdict, once known.
    own: Option<bool>,
}

fn valid(ctx: &mut Ctx, k: usize) -> Res<Item> {
    let c = corpus();
    if c.is_empty() {
        return ctx.violation("corpus", "no bundle could be proved");
    }
    let e = &c[ctx.pick("entry", c.len())];
    let mut rest = format!("tx {k} ").into_bytes();
    rest.extend(ctx.u64("rest").to_le_bytes());
    let msg = sighash(&e.un, &rest);
    match e.proven().apply_signatures(ctx.rng("sign"), msg, &e.plan.asks()) {
        Ok(a) => Ok(Item { w: Wire::of(&a), msg, what: e.name.clone(), own: None }),
        Err(x) => ctx.violation("signing-failed", format!("{x:?}")),
    }
}

fn add_to_s(s: &mut [u8; 64], d: Fq) {
    let x: [u8; 32] = s[32..].try_into().unwrap();
    if let Some(f) = fq(&x) {
        s[32..].copy_from_slice(&(f + d).to_repr());
    }
}
fn sig_mut(w: &mut Wire, i: usize) -> &mut [u8; 64] {
    if i == w.sigs.len() {
        &mut w.binding
    } else {
        &mut w.sigs[i]
    }
}

/// Damages one item so that it does not stand on its own (usually).
fn damage(ctx: &mut Ctx, it: &mut Item, other: &Item) {
    let n = it.w.sigs.len();
    let what = match ctx.pick("damage", 14) {
        0 => {
            let i = ctx.pick("d.sig", n);
            it.w.sigs[i][ctx.pick("d.byte", 64)] ^= 1 << ctx.pick("d.bit", 8);
            "spend-sig"
        }
        1 => {
            it.w.binding[ctx.pick("d.byte", 64)] ^= 1 << ctx.pick("d.bit", 8);
            "binding-sig"
        }
        2 => {
            let len = it.w.proof.len();
            it.w.proof[ctx.pick("d.at", len)] ^= 1 << ctx.pick("d.bit", 8);
            "proof"
        }
        3 => {
            it.msg = other.msg;
            "message-of-another"
        }
        4 => {
            it.msg[ctx.pick("d.msg", 32)] ^= 1;
            "message"
        }
        5 => {
            it.w.proof = other.w.proof.clone();
            "proof-of-another"
        }
        6 => {
            it.w.balance = it.w.balance.wrapping_add(1);
            "balance"
        }
        7 => {
            it.w.flags ^= 1 << ctx.pick("d.flag", 2);
            "flags"
        }
        8 => {
            it.w.anchor = canonical_fp(ctx, "d.anchor");
            "anchor"
        }
        9 => {
            let i = ctx.pick("d.action", n);
            it.w.actions[i].nf = canonical_fp(ctx, "d.nf");
            "nullifier"
        }
        10 => {
            let i = ctx.pick("d.action", n);
            it.w.actions[i].cmx = canonical_fp(ctx, "d.cmx");
            "cmx"
        }
        11 => {
            let i = ctx.pick("d.sig", n);
            let d = Fq::from(1 + ctx.u64("d.delta"));
            add_to_s(sig_mut(&mut it.w, i), d);
            "spend-sig-shift"
        }
        12 => {
            // the proof's last number
            let at = it.w.proof.len() - 32;
            let x: [u8; 32] = it.w.proof[at..].try_into().unwrap();
            if let Some(f) = fp(&x) {
                it.w.proof[at..].copy_from_slice(&(f + Fp::ONE).to_repr());
            }
            "proof-last"
        }
        _ => {
            it.w.proof.truncate(it.w.proof.len() / 64 * 32);
            "proof-cut"
        }
    };
    it.what += "!";
    it.what += what;
    it.own = None;
    ctx.fault(&format!("damaged.{what}"));
}

/// Errors in two places that a sloppy sum over the batch would not notice.
fn cancelling(ctx: &mut Ctx, a: &mut Item, b: &mut Item) {
    let what = match ctx.pick("cancel", 8) {
        0 => {
            let d = Fq::from(1 + ctx.u64("cancel.d"));
            add_to_s(&mut a.w.binding, d);
            add_to_s(&mut b.w.binding, -d);
            "binding-sums"
        }
        1 => {
            let (i, j) = (ctx.pick("cancel.i", a.w.sigs.len()), ctx.pick("cancel.j", b.w.sigs.len()));
            let d = Fq::from(1 + ctx.u64("cancel.d"));
            add_to_s(&mut a.w.sigs[i], d);
            add_to_s(&mut b.w.sigs[j], -d);
            "spend-sums"
        }
        2 => {
            // within one bundle
            let n = a.w.sigs.len();
            let d = Fq::from(1 + ctx.u64("cancel.d"));
            add_to_s(&mut a.w.sigs[0], d);
            add_to_s(&mut a.w.sigs[n - 1], if n > 1 { -d } else { d });
            "spend-sums-inside"
        }
        3 => {
            let d = Fp::ONE + Fp::from(ctx.u64("cancel.d"));
            // The opening argument ends with two numbers.
            let back = 32 * ctx.range("cancel.word", 1, 2);
            for (it, d) in [(&mut *a, d), (&mut *b, -d)] {
                let at = it.w.proof.len() - back;
                let x: [u8; 32] = it.w.proof[at..at + 32].try_into().unwrap();
                if let Some(f) = fp(&x) {
                    it.w.proof[at..at + 32].copy_from_slice(&(f + d).to_repr());
                }
            }
            "proof-sums"
        }
        4 => {
            std::mem::swap(&mut a.msg, &mut b.msg);
            "messages-swapped"
        }
        5 => {
            std::mem::swap(&mut a.w.binding, &mut b.w.binding);
            "bindings-swapped"
        }
        6 => {
            std::mem::swap(&mut a.w.proof, &mut b.w.proof);
            "proofs-swapped"
        }
        _ => {
            let d = 1 + (ctx.u64("cancel.d") >> 8) as i64;
            a.w.balance = a.w.balance.wrapping_add(d);
            b.w.balance = b.w.balance.wrapping_sub(d);
            "balances"
        }
    };
    for it in [a, b] {
        it.what += "~";
        it.what += what;
        it.own = None;
    }
    ctx.fault(&format!("cancelling.{what}"));
}

fn own(ctx: &mut Ctx, it: &mut Item) -> Res<Option<bool>> {
    let Some(b) = it.w.parse() else { return Ok(None) };
    if it.own.is_none() {
        ctx.schedule_threads("own");
        let v = node_accepts(&b, &it.msg);
        ctx.check_eq(signatures_ok(&b, &it.msg), it.w.ref_sigs_ok(&it.msg), "verdict", "signatures on their own")?;
        it.own = Some(v);
        ctx.log(format!("{} on its own: {v}", it.what));
    }
    Ok(it.own)
}

fn run_batch(ctx: &mut Ctx, items: &[Item]) -> Res {
    let mut v = if ctx.pick("default", 2) == 1 { BatchValidator::default() } else { BatchValidator::new() };
    let mut want = true;
    for it in items {
        let b = it.w.parse().unwrap();
        v.add_bundle(&b, it.msg);
        want &= it.own.unwrap();
    }
    getrandom::sim::seed(ctx.u64("os.entropy"));
    ctx.schedule_threads("batch");
    let rng = ctx.rng("validate");
    // What is right must be accepted whatever the entropy; refusing needs some.
    let ok = if want && ctx.pick("entropy", 4) == 1 {
        ctx.fault("entropy.stuck");
        let good = ctx.pick("stuck.good", 40);
        v.validate(vk(), Stuck::new(rng, good, 1 + ctx.pick("stuck.period", 3)))
    } else {
        v.validate(vk(), rng)
    };
    let bad = items.iter().filter(|i| i.own == Some(false)).count();
    ctx.log(format!("batch of {} with {bad} bad: {ok}", items.len()));
    ctx.state(&format!("{}/{bad}", items.len()));
    ctx.probe(&format!("batch_{}_bad_{}", items.len().min(9), bad.min(3)));
    ctx.check_eq(ok, want, "batch", &format!("batch of {} ({})", items.len(), items.iter().map(|i| i.what.clone()).collect::<Vec<_>>().join(", ")))
}

fn batches(ctx: &mut Ctx) -> Res {
    let max = if ctx.thorough { 12 } else { 6 };
    let n = if ctx.chance("empty", 1, 12) { 0 } else { ctx.range("n.items", 1, max) };
    let mut items = vec![];
    for k in 0..n {
        items.push(valid(ctx, k)?);
    }
    if n > 0 {
        let spare = valid(ctx, 99)?;
        match ctx.pick("faults", 7) {
            0 => {}
            1 | 2 => {
                let i = ctx.pick("bad", n);
                damage(ctx, &mut items[i], &spare);
            }
            3 | 4 | 5 if n >= 2 => {
                let i = ctx.pick("cancel.a", n - 1);
                let j = i + 1 + ctx.pick("cancel.b", n - 1 - i);
                let (x, y) = items.split_at_mut(j);
                cancelling(ctx, &mut x[i], &mut y[0]);
            }
            _ => {
                for i in 0..n {
                    if ctx.chance("bad.too", 1, 3) {
                        damage(ctx, &mut items[i], &spare);
                    }
                }
            }
        }
        // Some arrive twice.
        for i in 0..n {
            if items.len() < max + 2 && ctx.chance("dup", 1, 4) {
                let mut it = items[i].clone();
                if ctx.chance("dup.damaged", 1, 2) {
                    // An altered copy of what is in the batch already.
                    damage(ctx, &mut it, &spare);
                    ctx.probe("altered_copy");
                }
                items.push(it);
                ctx.fault("duplicated");
            }
        }
    }
    let mut ok = vec![];
    for it in items.iter_mut() {
        if own(ctx, it)?.is_some() {
            ok.push(it.clone());
        }
    }
    let order = ctx.permutation("order", ok.len());
    let shuffled: Vec<Item> = order.iter().map(|i| ok[*i].clone()).collect();
    run_batch(ctx, &shuffled)?;
    // The same bundles once more, in another order and company.
    if ctx.pick("again", 2) == 1 {
        let order = ctx.permutation("order2", ok.len());
        let cut = ctx.pick("cut", ok.len().max(1));
        let second: Vec<Item> = order.iter().map(|i| ok[*i].clone()).collect();
        if cut > 0 {
            run_batch(ctx, &second[..cut])?;
        }
        run_batch(ctx, &second[cut..])?;
    }
    // Only what is right.
    let good: Vec<Item> = ok.into_iter().filter(|i| i.own == Some(true)).collect();
    if !good.is_empty() && good.len() != shuffled.len() {
        run_batch(ctx, &good)?;
    }
    Ok(())
}

/// Many at once: a long-running node catching up.
fn large(ctx: &mut Ctx) -> Res {
    let kinds = ctx.range("kinds", 1, 4);
    let mut base = vec![];
    for k in 0..kinds {
        let mut it = valid(ctx, k)?;
        own(ctx, &mut it)?;
        base.push(it);
    }
    let n = ctx.range("n.items", 12, if ctx.thorough { 96 } else { 48 });
    let mut items: Vec<Item> = (0..n).map(|i| base[ctx.pick(&format!("kind.{i}"), kinds)].clone()).collect();
    let spare = valid(ctx, 99)?;
    // At most one or two of them are not what they should be, anywhere.
    for _ in 0..[0, 1, 1, 2][ctx.pick("large.bad", 4)] {
        let i = match ctx.pick("large.at.kind", 3) {
            0 => n - 1,
            1 => 0,
            _ => ctx.pick("large.at", n),
        };
        damage(ctx, &mut items[i], &spare);
        if own(ctx, &mut items[i])?.is_none() {
            items[i] = base[0].clone();
        }
    }
    ctx.probe("large_batch");
    run_batch(ctx, &items)
}

/// A node that validates what arrives over a bad network in batches cut by time or size, and
/// looks for the culprit one by one when a batch fails.
fn node(ctx: &mut Ctx) -> Res {
    let mut net: Net<Item> = Net::new(NetCfg::choose(ctx));
    let n = ctx.range("n.txs", 1, if ctx.thorough { 12 } else { 6 });
    for k in 0..n {
        let mut it = valid(ctx, k)?;
        if ctx.chance("net.corrupt", 1, 4) {
            let o = valid(ctx, 50 + k)?;
            damage(ctx, &mut it, &o);
        }
        net.send(ctx, 1, 0, it);
    }
    let size = ctx.range("batch.size", 1, 4);
    let every = [10_000u64, 100_000, 3_000_000][ctx.pick("batch.every", 3)];
    let mut pending: Vec<Item> = vec![];
    let mut since = ctx.now_us;
    let mut accepted = 0;
    loop {
        let next = net.next(ctx);
        let flush = next.is_none() || pending.len() >= size || ctx.now_us - since > every;
        if flush && !pending.is_empty() {
            run_batch(ctx, &pending)?;
            accepted += pending.iter().filter(|i| i.own == Some(true)).count();
            pending.clear();
            since = ctx.now_us;
        }
        let Some((_, _, mut it)) = next else { break };
        // The node may forget what it was collecting.
        if ctx.chance("crash", 1, 12) {
            ctx.fault("crash.batch");
            pending.clear();
        }
        if own(ctx, &mut it)?.is_some() {
            pending.push(it);
        }
    }
    ctx.log(format!("{accepted} accepted"));
    Ok(())
}

struct S;
impl Scenario for S {
    fn prepare(&self, seed: u64, thorough: bool) {
        prepare_corpus(seed, if thorough { 16 } else { 10 });
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        match ctx.pick("part", 12) {
            1 | 4 | 7 | 10 => node(ctx),
            11 => large(ctx),
            _ => batches(ctx),
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C08",
        scenario: Box::new(S),
        quick_runs: 560,
        thorough_runs: 12_000,
        rule: "Each run puts really proved bundles, some with damaged proofs, signatures, fields or messages, some with errors chosen to cancel, some repeated, into batches in chosen orders, company, entropy and thread schedules, directly or at a node fed by a faulty network; every batch's verdict must be the conjunction of the individual verdicts.",
        real: &["orchard::bundle::BatchValidator", "orchard::circuit", "halo2_proofs", "reddsa batch verification"],
        stub: &["network", "entropy", "thread pool"],
        assumptions: &["a batch with an invalid bundle is only required to be refused when the validator's entropy is good"],
    }
}
