//! Whatever is asked of the builder within its rules can be proved, signed in any order and
//! is accepted.
use halo2_proofs::dev::MockProver;
use orchard::builder::{InProgress, MaybeSigned, PartiallyAuthorized, Unproven};
use orchard::bundle::{BatchValidator, Bundle};
use orchard::circuit::Instance;

use crate::ctx::*;
use crate::plan::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

type UnprovenPartial = Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>;

/// A bundle on its way through the authorization steps.
enum Stage {
    Un(Unauth),
    Proven(Proven),
    UnprovenPartial(UnprovenPartial),
    Partial(Partial),
}

/// Makes extreme values common while keeping the balance representable.
fn admissible(ctx: &mut Ctx, plan: &mut Plan) {
    if ctx.pick("mirror", 2) == 1 {
        for (s, o) in plan.spends.iter().zip(plan.outs.iter_mut()) {
            let d = ctx.pick("mirror.d", 3) as u64;
            o.value = if ctx.pick("mirror.up", 2) == 1 { s.r.value.saturating_add(d) } else { s.r.value.saturating_sub(d) };
        }
    }
    // What remains too much is cut from the outputs, or the last spends taken as they are.
    while i64::try_from(plan.balance()).is_err() {
        if plan.balance() < 0 {
            let o = plan.outs.iter_mut().max_by_key(|o| o.value).unwrap();
            o.value /= 2;
        } else if plan.outs.len() < plan.spends.len() && rules(&plan.ty).1 {
            let s = &plan.spends[plan.outs.len()];
            let mut o = make_out(ctx, &plan.parties, true);
            o.value = s.r.value;
            plan.outs.push(o);
        } else if let Some(o) = plan.outs.iter_mut().find(|o| o.value < u64::MAX) {
            o.value = o.value.saturating_mul(2).saturating_add(1 << 40);
        } else {
            plan.spends.pop();
        }
    }
}

fn accepted(ctx: &mut Ctx, plan: &Plan, a: &Auth, msg: &[u8; 32], real: bool, ideal: &Ideal) -> Res {
    let d = plan.describe();
    let w = Wire::of(a);
    let Some(b) = w.parse() else { return ctx.violation("refused", format!("{d}: does not parse from its own encoding")) };
    ctx.check(signatures_ok(&b, msg), "refused", || format!("{d}: a signature is refused"))?;
    ctx.check(w.ref_sigs_ok(msg), "refused", || format!("{d}: a signature is refused by the reference"))?;
    if !real {
        return ctx.check(ideal.verify(&b), "refused", || format!("{d}: public inputs changed on the way"));
    }
    ctx.schedule_threads("verify");
    let ok = b.verify_proof(vk()).is_ok();
    ctx.check(ok, "refused", || format!("{d}: its proof is refused"))?;
    let inst: Vec<Instance> = b.actions().iter().map(|x| x.to_instance(*b.flags(), *b.anchor())).collect();
    let ok = b.authorization().proof().verify(vk(), &inst).is_ok();
    ctx.check(ok, "refused", || format!("{d}: its proof is refused"))?;
    for k in 1..=ctx.range("batch.copies", 1, 2) {
        let mut v = BatchValidator::new();
        for _ in 0..k {
            v.add_bundle(&b, *msg);
        }
        ctx.schedule_threads("batch");
        let ok = v.validate(vk(), ctx.rng("validate"));
        ctx.check(ok, "refused", || format!("{d}: refused in a batch of {k}"))?;
    }
    ctx.check_eq(w.proof.len(), Wire::canonical_proof_len(w.actions.len()), "refused", "length of the proof")
}

/// The steps in a legal order of the run's choosing.
fn ceremony(ctx: &mut Ctx, plan: &Plan, un: Unauth, meta: &orchard::builder::BundleMetadata, real: bool) -> Res {
    let d = plan.describe();
    let rest = ctx.bytes::<8>("rest");
    let msg = sighash(&un, &rest);
    let n = un.actions().len();
    let mut ideal = Ideal::default();
    // What co-signers hold: the same bundle, from which they make signatures.
    let device = {
        let mut p = attach_proof(un.clone(), vec![]).prepare(ctx.rng("device"), msg);
        for k in plan.asks() {
            p = p.sign(ctx.rng("device.sign"), &k);
        }
        p
    };
    let external = |slot: usize| match device.actions()[slot].authorization() {
        MaybeSigned::Signature(s) => Some(s.clone()),
        _ => None,
    };
    // The signing steps: each spend by its owner's key at once, or by an external signature.
    let mut steps: Vec<(usize, bool)> = vec![];
    for (k, s) in plan.spends.iter().enumerate() {
        let whole = ctx.pick("sign.external", 2) == 0;
        if whole {
            if !steps.iter().any(|(p, w)| *w && *p == s.party) {
                steps.push((s.party, true));
            }
        } else {
            steps.push((k, false));
        }
    }
    if ctx.chance("sign.useless", 1, 3) {
        steps.push((usize::MAX, true));
        ctx.fault("sign.foreign_key");
    }
    let order = ctx.permutation("sign.order", steps.len());
    let steps: Vec<_> = order.iter().map(|i| steps[*i]).collect();
    let total = 1 + steps.len();
    let prove_at = ctx.pick("prove.at", total + 1);
    let helper = ctx.chance("apply", 1, 6);
    ctx.log(format!("{d}: {n} actions, {} signing steps, proof before step {prove_at}, helper {helper}", steps.len()));
    ctx.state(&format!("{}/{prove_at}/{}/{real}", plan.shape(), steps.len()));

    let mut st = Stage::Un(un);
    let mut signed: Vec<bool> = vec![false; plan.spends.len()];
    for at in 0..=total {
        if at == prove_at || (helper && at == 0) {
            if !matches!(st, Stage::Un(_) | Stage::UnprovenPartial(_)) {
                continue;
            }
            st = if real {
                ctx.schedule_threads("prove");
                let rng = ctx.rng("prove");
                let r = match st {
                    Stage::Un(b) => b.create_proof(pk(), rng).map(Stage::Proven),
                    Stage::UnprovenPartial(b) => b.create_proof(pk(), rng).map(Stage::Partial),
                    x => Ok(x),
                };
                let s = maybe_rayon::sim::stats();
                ctx.log(format!("proving: schedule {:x}, {} tasks", s.order_hash, s.tasks));
                match r {
                    Ok(x) => x,
                    Err(e) => return ctx.violation("unprovable", format!("{d}: {e:?}")),
                }
            } else {
                match st {
                    Stage::Un(b) => Stage::Proven(ideal.prove(ctx, b)),
                    Stage::UnprovenPartial(b) => Stage::Partial(ideal.prove_partial(ctx, b)),
                    x => x,
                }
            };
        }
        if at == total {
            break;
        }
        if at == 0 {
            if helper {
                if let Stage::Proven(b) = st {
                    let mut keys = plan.asks();
                    let order = ctx.permutation("apply.order", keys.len());
                    keys = order.iter().map(|i| keys[*i].clone()).collect();
                    let a = match b.apply_signatures(ctx.rng("apply"), msg, &keys) {
                        Ok(a) => a,
                        Err(e) => return ctx.violation("unsignable", format!("{d}: {e:?}")),
                    };
                    ctx.probe("helper");
                    return accepted(ctx, plan, &a, &msg, real, &ideal);
                }
            }
            let rng = ctx.rng("prepare");
            st = match st {
                Stage::Un(b) => Stage::UnprovenPartial(b.prepare(rng, msg)),
                Stage::Proven(b) => Stage::Partial(b.prepare(rng, msg)),
                x => x,
            };
            continue;
        }
        let (what, whole) = steps[at - 1];
        if whole {
            let key = if what == usize::MAX { Party::new(ctx, "stranger").ask } else { plan.parties[what].ask.clone() };
            let rng = ctx.rng("sign");
            st = match st {
                Stage::UnprovenPartial(b) => Stage::UnprovenPartial(b.sign(rng, &key)),
                Stage::Partial(b) => Stage::Partial(b.sign(rng, &key)),
                x => x,
            };
            for (k, s) in plan.spends.iter().enumerate() {
                signed[k] |= s.party == what;
            }
            continue;
        }
        if signed[what] {
            // The owner signed everything in the meantime.
            continue;
        }
        let Some(slot) = meta.spend_action_index(what) else {
            return ctx.violation("metadata", format!("{d}: no action for spend {what}"));
        };
        let Some(s) = external(slot) else {
            return ctx.violation("unsignable", format!("{d}: its owner's key signs nothing at the action of spend {what}"));
        };
        signed[what] = true;
        let r = match st {
            Stage::UnprovenPartial(b) => b.append_signatures(&[s]).map(Stage::UnprovenPartial),
            Stage::Partial(b) => b.append_signatures(&[s]).map(Stage::Partial),
            x => Ok(x),
        };
        st = match r {
            Ok(x) => x,
            Err(e) => return ctx.violation("unsignable", format!("{d}: external signature of spend {what}: {e:?}")),
        };
        ctx.probe("external_signature");
    }
    let Stage::Partial(b) = st else { return ctx.violation("harness-stage", "not proven and prepared") };
    match b.finalize() {
        Ok(a) => accepted(ctx, plan, &a, &msg, real, &ideal),
        Err(e) => ctx.violation("unsignable", format!("{d}: {e:?}")),
    }
}

fn run(ctx: &mut Ctx, real: bool) -> Res {
    let n = if ctx.thorough { 5 } else { 3 };
    // Real proofs take seconds per action.
    let n = if real && !ctx.thorough { [1, 2, 2, 3][ctx.pick("size", 4)] } else { n };
    let all_types = ctx.pick("types", 2) == 1;
    let cfg = PlanCfg { max_spends: n, max_outs: n, any_values: true, all_types, big: if real { 0 } else { 8 }, ..Default::default() };
    let mut plan = make_plan(ctx, cfg);
    for _ in 0..6 {
        // Nothing to prove is mostly not worth it.
        if plan.expected_actions() != Some(0) || ctx.chance("empty.keep", 1, 20) {
            break;
        }
        plan = make_plan(ctx, cfg);
    }
    admissible(ctx, &mut plan);
    let custom = ctx.pick("path", 2) == 1;
    let rng = ctx.rng("build");
    let Some((un, meta)) = plan.build_ok(ctx, custom, rng)? else {
        return ctx.check_eq(plan.expected_actions(), Some(0), "no-bundle", "actions when nothing is built");
    };
    ctx.probe(if real { "real" } else { "mock" });
    for s in &plan.spends {
        ctx.probe(match (s.r.value, s.scope) {
            (0, _) => "spend_zero",
            (u64::MAX, _) => "spend_max",
            (_, orchard::keys::Scope::Internal) => "spend_internal",
            _ => "spend",
        });
        if s.pos == u32::MAX || s.pos == 0 {
            ctx.probe("position_extreme");
        }
    }
    if !real {
        // Does the witness satisfy the circuit for the public inputs?
        let d = plan.describe();
        let circuits = un.authorization().sim_circuits();
        ctx.check_eq(circuits.len(), un.actions().len(), "unprovable", "circuits of a bundle")?;
        for (i, inputs) in public_inputs(&un).into_iter().enumerate() {
            let r = match MockProver::run(Instance::SIM_K, &circuits[i], inputs) {
                Ok(p) => p.verify().map_err(|e| format!("{:?}", e.first().map(|x| x.to_string()))),
                Err(e) => Err(format!("{e:?}")),
            };
            if let Err(e) = r {
                return ctx.violation("unprovable", format!("{d}: action {i}: {e}"));
            }
            ctx.checks += 1;
        }
    }
    ceremony(ctx, &plan, un, &meta, real)
}

struct S;
impl Scenario for S {
    fn prepare(&self, _seed: u64, _thorough: bool) {
        let _ = vk();
        let _ = pk();
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        let real = ctx.pick("real", 4) == 1;
        run(ctx, real)
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C01",
        scenario: Box::new(S),
        quick_runs: 210,
        thorough_runs: 6_000,
        rule: "Each run makes an admissible request (all bundle types, both build paths, extreme values, positions, scopes, absent zero-value notes), takes it through proving, preparing, signing and adding external signatures in a legal order of the seed's choosing, and validates the result. A quarter prove and verify for real under a chosen thread schedule; the others check every action's witness against the circuit and its public inputs with halo2's constraint checker.",
        real: &["orchard::builder", "orchard::bundle", "orchard::circuit", "halo2_proofs prover and verifier (a quarter of the runs)", "reddsa", "BatchValidator"],
        stub: &["halo2_proofs prover (replaced by its constraint checker in three quarters of the runs)", "thread pool"],
        assumptions: &["a witness satisfying the circuit yields an accepted proof (itself sampled by the real quarter)"],
    }
}
