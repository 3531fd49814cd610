//! Conservation of value: arithmetic at the edges, commitments, and whole histories.
use ff::PrimeField;
use orchard::builder::BuildError;
use orchard::keys::OutgoingViewingKey;
use orchard::value::{NoteValue, OverflowError, ValueCommitTrapdoor, ValueCommitment, ValueSum};

use crate::chain::*;
use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

/// A caller's own amount type, narrower than i64.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
struct Money(i64);
const MAX_MONEY: i64 = 2_100_000_000_000_000;
impl TryFrom<i64> for Money {
    type Error = ();
    fn try_from(v: i64) -> Result<Self, ()> {
        if (-MAX_MONEY..=MAX_MONEY).contains(&v) {
            Ok(Money(v))
        } else {
            Err(())
        }
    }
}

const LIM: i128 = u64::MAX as i128;

fn arithmetic(ctx: &mut Ctx) -> Res {
    let n = ctx.range("arith.n", 1, 6);
    let mut terms: Vec<(u64, u64)> = vec![];
    for _ in 0..n {
        let a = any_value(ctx);
        let b = match ctx.pick("arith.b", 3) {
            0 => 0,
            1 => any_value(ctx),
            _ => a.wrapping_add(1),
        };
        terms.push(if ctx.pick("arith.neg", 2) == 1 { (b, a) } else { (a, b) });
    }
    let vs: Vec<ValueSum> = terms.iter().map(|(a, b)| NoteValue::from_raw(*a) - NoteValue::from_raw(*b)).collect();
    let ex: Vec<i128> = terms.iter().map(|(a, b)| *a as i128 - *b as i128).collect();
    ctx.log(format!("terms {ex:?}"));
    for (v, e) in vs.iter().zip(&ex) {
        ctx.check_eq(i64::try_from(*v).ok(), i64::try_from(*e).ok(), "difference", "difference of two note values as i64")?;
        let rcv: [u8; 32] = to_fq(&ctx.bytes::<64>("rcv")).to_repr();
        let cv = ValueCommitment::derive(*v, ValueCommitTrapdoor::from_bytes(rcv).unwrap()).to_bytes();
        let want = group::GroupEncoding::to_bytes(&value_commit(*e, &fq(&rcv).unwrap()));
        ctx.check_eq(cv, want, "commitment", "commitment to a difference of note values")?;
    }
    // pairwise addition
    let s = vs[0] + vs[n - 1];
    let e = ex[0] + ex[n - 1];
    ctx.check_eq(s.is_some(), (-LIM..=LIM).contains(&e), "addition-range", "whether adding two value sums succeeds")?;
    if let Some(s) = s {
        ctx.check_eq(i64::try_from(s).ok(), i64::try_from(e).ok(), "addition", "sum of two value sums")?;
    }
    // folding any number of them, in any order
    let total: i128 = ex.iter().sum();
    for round in 0..3 {
        let p = if round == 0 { (0..n).collect() } else { ctx.permutation("arith.order", n) };
        let by_ref: Result<ValueSum, OverflowError> = p.iter().map(|i| &vs[*i]).sum();
        let by_val: Result<ValueSum, OverflowError> = p.iter().map(|i| vs[*i]).sum();
        for (r, how) in [(by_ref, "references"), (by_val, "values")] {
            ctx.check_eq(r.is_ok(), (-LIM..=LIM).contains(&total), "sum-order", &format!("whether summing {ex:?} as {how} in order {p:?} succeeds"))?;
            if let Ok(s) = r {
                ctx.check_eq(i64::try_from(s).ok(), i64::try_from(total).ok(), "sum", "sum of value sums")?;
            }
        }
    }
    Ok(())
}

fn edges(ctx: &mut Ctx) -> Res {
    let plan = make_plan(ctx, PlanCfg { max_spends: 4, max_outs: 4, any_values: true, big: 40, ..Default::default() });
    ctx.log(plan.describe());
    ctx.state(&plan.shape());
    let bal = plan.balance();
    let want = i64::try_from(bal).ok();
    let want_money = want.and_then(|v| Money::try_from(v).ok());
    ctx.probe(if want.is_some() { "representable" } else { "unrepresentable" });
    // as requested, and with the requests arranged differently
    for round in 0..3 {
        let mut p = plan.clone();
        if round > 0 {
            let o = ctx.permutation("edge.spends", p.spends.len());
            p.spends = o.iter().map(|i| plan.spends[*i].clone()).collect();
            let o = ctx.permutation("edge.outs", p.outs.len());
            p.outs = o.iter().map(|i| plan.outs[*i].clone()).collect();
        }
        let b = p.builder().expect("acceptable");
        ctx.check_eq(b.value_balance::<i64>().ok(), want, "builder-balance", &format!("value balance reported for {}", p.describe()))?;
        ctx.check_eq(b.value_balance::<Money>().ok(), want_money, "builder-balance", "value balance reported in the caller's amount type")?;
        let custom = ctx.pick("edge.custom", 2) == 1;
        let money = ctx.pick("edge.money", 3) == 2;
        let rng = ctx.rng("edge.build");
        if money {
            let r = b.build::<Money>(rng);
            let ok = match r {
                Ok(Some((b, _))) => Some(*b.value_balance()) == want_money,
                Ok(None) => plan.expected_actions() == Some(0),
                Err(BuildError::ValueSum(_)) => want_money.is_none(),
                Err(_) => false,
            };
            ctx.check(ok, "bundle-balance", || format!("building {} with a narrow amount type", p.describe()))?;
            continue;
        }
        let r = if custom { p.build(true, rng) } else { b.build::<i64>(rng) };
        match r {
            Ok(Some((b, _))) => {
                ctx.check_eq(Some(*b.value_balance()), want, "bundle-balance", &format!("value balance of the bundle for {}", p.describe()))?;
                openings(ctx, &p, b)?;
            }
            Ok(None) => ctx.check_eq(plan.expected_actions(), Some(0), "withheld", "number of actions of a withheld bundle")?,
            Err(BuildError::ValueSum(_)) => {
                ctx.probe("overflow_reported");
                ctx.check(want.is_none(), "spurious-overflow", || format!("representable balance {bal} refused: {}", p.describe()))?
            }
            Err(e) => return ctx.violation("build-refused", format!("{e:?}: {}", p.describe())),
        }
    }
    Ok(())
}

/// The commitments open to the stated balance, and to no other.
fn openings(ctx: &mut Ctx, plan: &Plan, b: Unauth) -> Res {
    let balance = *b.value_balance();
    let mut ideal = Ideal::default();
    let proven = ideal.prove(ctx, b);
    let msg = sighash(&proven, b"tx");
    let mut rng = ctx.rng("open.sign");
    let Ok(a) = proven.clone().apply_signatures(&mut rng, msg, &plan.asks()) else {
        return ctx.violation("signing-failed", "owners could not sign");
    };
    let w = Wire::of(&a);
    ctx.log_bytes("bundle", &w.encode());
    ctx.check_eq(w.balance, balance, "bundle-balance", "published balance")?;
    ctx.check(signatures_ok(&a, &msg), "opening", || "binding signature refused for the true balance".into())?;
    ctx.check(w.ref_sigs_ok(&msg), "opening-reference", || "value commitments do not open to the stated balance".into())?;
    let cvs: Vec<_> = w.actions.iter().map(|a| a.cv).collect();
    for k in 0..3 {
        // Any other stated balance, signed by the creator of the bundle over the changed transaction.
        let mut other = match ctx.pick("open.other", 7) {
            0 => balance.wrapping_add(1),
            1 => balance.wrapping_sub(1),
            2 => balance.wrapping_neg(),
            3 => 0,
            4 => i64::MIN,
            5 => i64::MAX,
            _ => ctx.u64("open.value") as i64,
        };
        if other == balance {
            other ^= 1 << (k * 20);
        }
        ctx.fault("byzantine.balance");
        let mut f = w.clone();
        f.balance = other;
        let fake = f.parse().expect("well-formed");
        let got: [u8; 32] = (&fake.binding_validating_key()).into();
        ctx.check_eq(Some(got), bvk(&cvs, other), "binding-key", &format!("binding validating key for balance {other}"))?;
        let fmsg = sighash(&fake, b"tx");
        ctx.check(fmsg != msg, "digest", || "the digest does not commit to the balance".into())?;
        let mut rng = ctx.rng("open.forge");
        let Ok(resigned) = proven.clone().apply_signatures(&mut rng, fmsg, &plan.asks()) else {
            return ctx.violation("signing-failed", "owners could not sign");
        };
        let r = Wire::of(&resigned);
        f.sigs = r.sigs;
        f.binding = r.binding;
        let fake = f.parse().expect("well-formed");
        let sp = fake.actions().iter().all(|a| a.rk().verify(&fmsg, a.authorization()).is_ok());
        ctx.check(sp, "opening", || "fresh spend signatures refused".into())?;
        ctx.check(!signatures_ok(&fake, &fmsg), "opened-to-other-value", || format!("commitments to {balance} also opened to {other}"))?;
    }
    Ok(())
}

#[derive(Clone)]
enum Msg {
    Tx(Wire, Vec<u8>, &'static str),
    Wallet(usize),
}

fn history(ctx: &mut Ctx) -> Res {
    let parties = make_parties(ctx, 3);
    let mut ledger = Ledger::new();
    let mut ideal = Ideal::default();
    let mut outs = vec![];
    for i in 0..parties.len() {
        let mut o = make_out(ctx, &parties, false);
        o.party = i;
        o.scope = SCOPES[0];
        o.addr = parties[i].addr(0, SCOPES[0]);
        o.value = o.value.max(10);
        outs.push(o);
    }
    fund(ctx, &mut ledger, &mut ideal, &parties, outs)?;
    let cfg = NetCfg::choose(ctx);
    let mut net: Net<Msg> = Net::new(cfg);
    let ledger_node = parties.len();
    let steps = ctx.range("hist.steps", 1, 6);
    for k in 0..steps {
        let w = ctx.pick("hist.wallet", parties.len());
        let t = ctx.range("hist.at", 0, 40) as u64 * 100_000 + k as u64;
        net.timer(ctx, w, t, Msg::Wallet(w));
    }
    while let Some((_, _, m)) = net.next(ctx) {
        match m {
            Msg::Wallet(w) => {
                // The wallet's own view of what it may spend.
                let mine: Vec<Live> = ledger.notes.iter().filter(|n| n.owner == w && !n.spent).cloned().collect();
                let k = ctx.pick("hist.spends", 3).min(mine.len());
                let mut from = vec![];
                for i in ctx.permutation("hist.choice", mine.len()).into_iter().take(k) {
                    from.push(mine[i].clone());
                }
                let have: i128 = from.iter().map(|n| n.r.value as i128).sum();
                // an older anchor, if every note is already in it
                let newest = from.iter().map(|n| n.pos + 1).max().unwrap_or(0);
                let marks: Vec<usize> = ledger.marks.iter().copied().filter(|m| *m >= newest).collect();
                let at = marks[marks.len() - 1 - ctx.pick("hist.anchor", marks.len())];
                let mut left = have;
                let mut outs = vec![];
                for _ in 0..ctx.pick("hist.outs", 4) {
                    let mut o = make_out(ctx, &parties, false);
                    match ctx.pick("hist.value", 4) {
                        // change, some of what there is, or new value entering the pool
                        0 => o.value = left.max(0) as u64,
                        1 => o.value = if left > 0 { ctx.u64("hist.part") % (left as u64) } else { 0 },
                        _ => {}
                    }
                    left -= o.value as i128;
                    outs.push(o);
                }
                if ctx.pick("hist.ovk", 2) == 1 {
                    for o in &mut outs {
                        o.ovk = Some(*OutgoingViewingKey::as_ref(&parties[w].fvk.to_ovk(SCOPES[0])));
                    }
                }
                let plan = plan_tx(&mut ledger, &parties, bundle_type(ctx, false), at, &from, outs);
                let rng = ctx.rng("hist.build");
                let custom = ctx.pick("hist.custom", 2) == 1;
                let Some((b, _)) = plan.build_ok(ctx, custom, rng)? else { continue };
                ctx.check_eq(*b.value_balance() as i128, plan.balance(), "bundle-balance", "balance of a payment")?;
                let rest: [u8; 8] = ctx.bytes("hist.rest");
                let a = finish(ctx, &mut ideal, &plan, b, &rest)?;
                let wire = Wire::of(&a);
                ctx.log(format!("wallet {w}: {}", plan.describe()));
                net.send(ctx, w, ledger_node, Msg::Tx(wire.clone(), rest.to_vec(), "honest"));
                if ctx.chance("hist.tamper", 1, 2) {
                    let mut t = wire.clone();
                    match ctx.pick("hist.tamper.kind", 4) {
                        0 => t.balance = t.balance.wrapping_add(1 + (ctx.u64("hist.d") >> 20) as i64),
                        1 => t.balance = t.balance.wrapping_sub(1 + (ctx.u64("hist.d") >> 20) as i64),
                        2 => {
                            // value commitments moved between actions
                            let n = t.actions.len();
                            let (i, j) = (ctx.pick("hist.i", n), ctx.pick("hist.j", n));
                            let c = t.actions[i].cv;
                            t.actions[i].cv = t.actions[j].cv;
                            t.actions[j].cv = c;
                            if i == j {
                                t.balance ^= 1;
                            }
                        }
                        _ => {
                            // an output of an earlier transaction spliced in
                            let (old, _) = ledger.txs[ctx.pick("hist.old", ledger.txs.len())].clone();
                            t.actions[0].cmx = old.actions[0].cmx;
                            t.actions[0].enc = old.actions[0].enc.clone();
                            t.actions[0].epk = old.actions[0].epk;
                            if t == wire {
                                t.balance ^= 1;
                            }
                        }
                    }
                    ctx.fault("byzantine.tampered_tx");
                    net.send(ctx, w, ledger_node, Msg::Tx(t, rest.to_vec(), "tampered"));
                }
            }
            Msg::Tx(w, rest, kind) => {
                let v = ledger.judge(&ideal, &w, &rest);
                ctx.log(format!("ledger: {kind} balance {} -> {v:?}", w.balance));
                ctx.state(&format!("{kind}{v:?}"));
                ctx.probe(&format!("tx_{kind}_{v:?}"));
                if kind == "honest" {
                    ctx.check(matches!(v, Verdict::Accepted | Verdict::DoubleSpend), "honest-rejected", || format!("honest transaction: {v:?}"))?;
                } else {
                    ctx.check(v != Verdict::Accepted, "tampered-accepted", || "a transaction with altered value was accepted".into())?;
                }
                if v == Verdict::Accepted {
                    ledger.apply(&w, &rest, &parties);
                }
                // The invariant, after every event.
                ctx.check_eq(ledger.unspent(), ledger.pool, "conservation", "value of unspent notes against the pool")?;
                ctx.check_eq(ledger.entered - ledger.left, ledger.pool, "conservation", "value entered minus value left")?;
                ctx.check(ledger.pool >= 0, "negative-pool", || format!("pool {}", ledger.pool))?;
            }
        }
    }
    Ok(())
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        arithmetic(ctx)?;
        match ctx.pick("mode", 3) {
            0 | 1 => edges(ctx),
            _ => history(ctx),
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C03",
        scenario: Box::new(S),
        quick_runs: 1_200,
        thorough_runs: 80_000,
        rule: "Each run checks value arithmetic on extreme terms in several orders, then either builds one request with extreme values in several arrangements and tries to open its commitments to other balances with freshly made signatures, or plays a payment history over a faulty network with tampered transactions and checks conservation after every event.",
        real: &["orchard::value", "orchard::builder", "orchard::bundle (binding validating key, digests)", "redpallas signatures"],
        stub: &["proof system (ideal functionality)", "full node rules (anchor, nullifier set)", "network"],
        assumptions: &["reference value commitments, decryption and tree in sim/src/refm.rs", "notes of wallets unknown to the simulator do not exist"],
    }
}
