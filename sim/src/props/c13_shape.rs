//! Shape, contents and metadata of built bundles, and the uniformity of their shuffling.
use std::collections::BTreeSet;

use ff::PrimeField;
use orchard::builder::{bundle as build_bundle, BundleMetadata, BundleType, OutputInfo, SpendInfo};
use orchard::bundle::Flags;
use orchard::keys::Scope;
use orchard::value::NoteValue;

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::rngs::Stutter;
use crate::runner::{Scenario, Spec};
use crate::world::*;

/// Everything the property promises about one built bundle.
pub fn judge(ctx: &mut Ctx, plan: &Plan, built: &Option<(Unauth, BundleMetadata)>) -> Res {
    let want_n = plan.expected_actions().expect("acceptable plan");
    let got_n = built.as_ref().map_or(0, |b| b.0.actions().len());
    ctx.check_eq(got_n, want_n, "action-count", "number of actions")?;
    let Some((b, meta)) = built else {
        ctx.probe("no_bundle");
        return Ok(());
    };
    let acts = ractions(b);
    let (s_ok, o_ok, _, _) = rules(&plan.ty);
    ctx.check_eq(b.anchor().to_bytes(), plan.anchor, "anchor", "anchor")?;
    ctx.check_eq((b.flags().spends_enabled(), b.flags().outputs_enabled()), (s_ok, o_ok), "flags", "flags")?;
    ctx.check_eq(b.flags().to_byte(), s_ok as u8 | (o_ok as u8) << 1, "flags", "flag byte")?;
    ctx.check_eq(*b.value_balance() as i128, plan.balance(), "value", "net value of the bundle")?;

    // Every requested spend exactly once, where the metadata says.
    let mut used = BTreeSet::new();
    for (k, s) in plan.spends.iter().enumerate() {
        let at = find_spend(&acts, &plan.parties, s);
        ctx.check_eq(at.len(), 1, "spend-count", "number of actions spending a requested note")?;
        ctx.check_eq(meta.spend_action_index(k), Some(at[0]), "spend-metadata", "metadata of a spend")?;
        used.insert(at[0]);
    }
    ctx.check_eq(used.len(), plan.spends.len(), "spends-share-action", "actions used by spends")?;
    // Every requested output exactly once; whatever anybody can decrypt was requested.
    let mut taken = BTreeSet::new();
    let mut found: Vec<(usize, RNote, [u8; 512])> = vec![];
    for (i, a) in acts.iter().enumerate() {
        for p in &plan.parties {
            for s in SCOPES {
                if let Some((n, m)) = decrypt(&p.r.fvk.ivk(rscope(s)).unwrap().ivk, a) {
                    found.push((i, n, m));
                }
            }
        }
    }
    for (k, o) in plan.outs.iter().enumerate() {
        let Some(i) = meta.output_action_index(k) else {
            return ctx.violation("output-metadata", "no metadata for a requested output");
        };
        ctx.check(taken.insert(i), "outputs-share-action", || "two outputs in one action".into())?;
        let here: Vec<_> = found.iter().filter(|f| f.0 == i).collect();
        let ok = here.len() == 1
            && here[0].1.addr == o.addr.to_raw_address_bytes()
            && here[0].1.value == o.value
            && here[0].2 == memo_bytes(&o.memo);
        ctx.check(ok, "output-metadata", || format!("action {i} does not contain output {k}"))?;
    }
    ctx.check_eq(found.len(), plan.outs.len(), "extra-output", "outputs addressed to known wallets")?;
    // Nothing for indices never requested.
    let none = orchard::builder::BundleMetadata::empty();
    ctx.check(none.spend_action_index(0).is_none() && none.output_action_index(0).is_none(), "empty-metadata", || "metadata of nothing locates something".into())?;
    ctx.check_eq(*meta == none, plan.spends.is_empty() && plan.outs.is_empty(), "empty-metadata", "metadata is that of a bundle of dummies")?;
    for k in [plan.spends.len(), plan.spends.len() + 1, want_n, usize::MAX] {
        if k >= plan.spends.len() {
            ctx.check_eq(meta.spend_action_index(k), None, "spend-metadata-extra", "metadata for a spend never requested")?;
        }
    }
    for k in [plan.outs.len(), plan.outs.len() + 1, want_n, usize::MAX] {
        if k >= plan.outs.len() {
            ctx.check_eq(meta.output_action_index(k), None, "output-metadata-extra", "metadata for an output never requested")?;
        }
    }
    // The rest are dummies: distinct, signed automatically, worth nothing. Together with the
    // requested notes the commitments open to the requested balance only if they are.
    let nfs: BTreeSet<_> = acts.iter().map(|a| a.nf).collect();
    let rks: BTreeSet<_> = acts.iter().map(|a| a.rk).collect();
    let cmxs: BTreeSet<_> = acts.iter().map(|a| a.cmx).collect();
    let epks: BTreeSet<_> = acts.iter().map(|a| a.epk).collect();
    ctx.check_eq((nfs.len(), rks.len(), cmxs.len(), epks.len()), (want_n, want_n, want_n, want_n), "dummies-repeat", "distinct values across actions")?;
    ctx.probe(&format!("dummy_spends_{}", want_n - plan.spends.len()));
    ctx.probe(&format!("dummy_outputs_{}", want_n - plan.outs.len()));
    Ok(())
}

/// One-sided tail of the chi-square distribution (Wilson-Hilferty), good enough for p < 1e-10.
fn chi2_z(x: f64, df: f64) -> f64 {
    ((x / df).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}

fn uniformity(ctx: &mut Ctx) -> Res {
    // k spends and m outputs in n actions; many builds with fresh entropy.
    let (k, m) = [(2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (1, 2), (2, 1), (1, 1)][ctx.pick("uni.shape", 8)];
    let n: usize = k.max(m).max(2);
    let total = if ctx.thorough { 900 } else { 360 };
    let p = Party::new(ctx, "p");
    // Zero-valued notes keep the simulation cheap; they are spends like any other.
    let notes: Vec<_> = (0..k).map(|i| mint(ctx, &p.addr(i as u32, Scope::External), 0)).collect();
    let a = anchor(&empty_root(32).to_repr());
    let path = || merkle_path(0, &[[0; 32]; 32]);
    let custom = ctx.pick("uni.custom", 2) == 1;
    let mut rng = ctx.rng("uni");
    let (mut sp, mut op) = (vec![], vec![]);
    let all: Vec<Vec<usize>> = arrangements(n, k);
    let allo: Vec<Vec<usize>> = arrangements(n, m);
    let mut joint = vec![vec![0u64; allo.len()]; all.len()];
    for _ in 0..total {
        let ty = BundleType::Transactional { flags: Flags::ENABLED, bundle_required: false };
        let meta = if custom {
            let s = notes.iter().map(|x| SpendInfo::new(p.fvk.clone(), *x, path()).unwrap()).collect();
            let o = (0..m).map(|_| OutputInfo::new(None, p.addr(0, Scope::External), NoteValue::from_raw(0), None)).collect();
            build_bundle::<i64>(&mut rng, a, ty, s, o)
        } else {
            let mut b = orchard::builder::Builder::new(ty, a);
            for x in &notes {
                b.add_spend(p.fvk.clone(), *x, path()).unwrap();
            }
            for _ in 0..m {
                b.add_output(None, p.addr(0, Scope::External), NoteValue::from_raw(0), None).unwrap();
            }
            b.build::<i64>(&mut rng)
        };
        let Ok(Some((b, meta))) = meta else { return ctx.violation("build-refused", "zero-valued bundle not built") };
        ctx.check_eq(b.actions().len(), n, "action-count", "number of actions")?;
        let s: Vec<usize> = (0..k).map(|i| meta.spend_action_index(i).unwrap_or(99)).collect();
        let o: Vec<usize> = (0..m).map(|i| meta.output_action_index(i).unwrap_or(99)).collect();
        let (Some(si), Some(oi)) = (all.iter().position(|x| *x == s), allo.iter().position(|x| *x == o)) else {
            return ctx.violation("metadata-range", format!("metadata {s:?} {o:?} is not an arrangement of {n} actions"));
        };
        joint[si][oi] += 1;
        sp.push(si);
        op.push(oi);
    }
    ctx.log(format!("{k} spends {m} outputs: {joint:?}"));
    let total = total as f64;
    let mut test = |name: &str, counts: Vec<u64>| -> Res {
        let df = counts.len() as f64 - 1.0;
        if df < 1.0 {
            return Ok(());
        }
        let e = total / counts.len() as f64;
        let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
        let z = chi2_z(x, df);
        ctx.check(z < 7.0, "shuffle-biased", || format!("{name}: chi2={x:.1} df={df} z={z:.1} counts={counts:?}"))
    };
    let mut c = vec![0; all.len()];
    sp.iter().for_each(|i| c[*i] += 1);
    test("spend positions", c)?;
    let mut c = vec![0; allo.len()];
    op.iter().for_each(|i| c[*i] += 1);
    test("output positions", c)?;
    test("joint positions", joint.into_iter().flatten().collect())?;
    ctx.probe("uniformity_tested");
    Ok(())
}
fn arrangements(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| (0..n).filter(|x| !v.contains(x)).map(|x| [&v[..], &[x]].concat()).collect::<Vec<_>>())
            .collect();
    }
    out
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        if ctx.chance("uniformity", 1, 20) {
            ctx.state("uniformity");
            return uniformity(ctx);
        }
        let big = ctx.chance("wide", 1, 12);
        let cfg = if big {
            PlanCfg { max_spends: 9, max_outs: 11, big: 70, ..Default::default() }
        } else {
            PlanCfg { max_spends: 4, max_outs: 4, big: 36, ..Default::default() }
        };
        let plan = make_plan(ctx, cfg);
        ctx.log(plan.describe());
        ctx.state(&plan.shape());
        let custom = ctx.pick("custom", 2) == 1;
        let rng = ctx.rng("build");
        let built = if ctx.chance("stutter", 1, 6) {
            ctx.fault("entropy.stutter");
            plan.build_ok(ctx, custom, Stutter { inner: rng, every: 5, n: 0, last: 0 })?
        } else {
            plan.build_ok(ctx, custom, rng)?
        };
        judge(ctx, &plan, &built)?;
        if let Some((b, _)) = &built {
            let c: [u8; 32] = b.commitment().into();
            ctx.log_bytes("commitment", &c);
        }
        if let Some((b, meta)) = &built {
            ctx.log(format!(
                "spends at {:?} outputs at {:?}",
                (0..plan.spends.len()).map(|i| meta.spend_action_index(i)).collect::<Vec<_>>(),
                (0..plan.outs.len()).map(|i| meta.output_action_index(i)).collect::<Vec<_>>()
            ));
            // The dummies sign themselves: exactly the requested spends' owners are needed.
            let owners: BTreeSet<usize> = plan.spends.iter().map(|s| s.party).collect();
            let skip = if owners.is_empty() { None } else { Some(ctx.pick("skip.owner", owners.len() + 1)).filter(|i| *i < owners.len()) };
            let mut keys = vec![];
            for (i, o) in owners.iter().enumerate() {
                if Some(i) != skip {
                    keys.push(plan.parties[*o].ask.clone());
                }
            }
            let msg = sighash(b, b"tx");
            let mut rng = ctx.rng("sign");
            let proven = Ideal::default().prove(ctx, b.clone());
            let r = proven.apply_signatures(&mut rng, msg, &keys);
            ctx.check_eq(r.is_ok(), skip.is_none(), "dummy-signing", "whether the owners' signatures suffice")?;
            if let Ok(a) = r {
                ctx.check(signatures_ok(&a, &msg), "signatures", || "a built bundle's signatures do not verify".into())?;
                ctx.check(Wire::of(&a).ref_sigs_ok(&msg), "signatures-reference", || "value commitments or keys do not open to what was requested".into())?;
            }
            if skip.is_some() {
                ctx.fault("signer.missing");
            }
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C13",
        scenario: Box::new(S),
        quick_runs: 900,
        thorough_runs: 60_000,
        rule: "Each run builds one bundle from a random request (every bundle type, 0-70 spends and outputs, Builder and custom-builder paths, degraded entropy) and compares every action with the request using reference decryption and nullifiers; one run in twenty builds one request hundreds of times and tests the positions for uniformity and independence.",
        real: &["orchard::builder", "orchard::bundle", "orchard::note_encryption (sender side)", "orchard::value"],
        stub: &["proof system (ideal functionality)", "note commitment tree contents"],
        assumptions: &["reference decryption and nullifiers in sim/src/refm.rs", "uniformity is tested statistically (z < 7) over seeded entropy"],
    }
}
