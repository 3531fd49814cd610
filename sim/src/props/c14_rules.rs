//! Bundle type and flag rules, through every way of adding and building.
use std::collections::BTreeSet;

use orchard::builder::{bundle as build_bundle, BuildError, Builder, BundleType, InputView, OutputInfo, OutputView, SpendError, SpendInfo};
use orchard::bundle::Flags;
use orchard::keys::{OutgoingViewingKey, Scope};
use orchard::value::NoteValue;

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

fn observe(b: &Builder) -> (Vec<u64>, Vec<u64>, Option<i64>) {
    (
        b.spends().iter().map(|s| InputView::<()>::value::<u64>(s)).collect(),
        b.outputs().iter().map(|o| OutputView::value::<u64>(o)).collect(),
        b.value_balance::<i64>().ok(),
    )
}
fn model(spends: &[PSpend], outs: &[POut]) -> (Vec<u64>, Vec<u64>, Option<i64>) {
    let s: Vec<u64> = spends.iter().map(|s| s.r.value).collect();
    let o: Vec<u64> = outs.iter().map(|s| s.value).collect();
    let v = s.iter().map(|x| *x as i128).sum::<i128>() - o.iter().map(|x| *x as i128).sum::<i128>();
    (s, o, i64::try_from(v).ok())
}

fn flag_bytes(ctx: &mut Ctx) -> Res {
    for v in 0..=255u8 {
        let f = Flags::from_byte(v);
        ctx.check_eq(f.is_some(), v < 4, "flag-byte", &format!("flag byte {v:#x} accepted"))?;
        if let Some(f) = f {
            ctx.check_eq((f.spends_enabled(), f.outputs_enabled(), f.to_byte()), (v & 1 == 1, v & 2 == 2, v), "flag-byte", &format!("meaning of flag byte {v:#x}"))?;
        }
    }
    for (f, want) in [
        (Flags::ENABLED, (true, true, 3)),
        (Flags::SPENDS_DISABLED, (false, true, 2)),
        (Flags::OUTPUTS_DISABLED, (true, false, 1)),
        (flags_none(), (false, false, 0)),
        (BundleType::Coinbase.flags(), (false, true, 2)),
        (BundleType::DEFAULT.flags(), (true, true, 3)),
    ] {
        ctx.check_eq((f.spends_enabled(), f.outputs_enabled(), f.to_byte()), want, "flag-constants", "named flags")?;
        ctx.check_eq(Flags::from_byte(want.2), Some(f), "flag-constants", "named flags from their byte")?;
    }
    Ok(())
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        flag_bytes(ctx)?;
        let parties = make_parties(ctx, 2);
        let ty = bundle_type(ctx, true);
        let (s_ok, o_ok, req, coinbase) = rules(&ty);
        ctx.check_eq((ty.flags().spends_enabled(), ty.flags().outputs_enabled()), (s_ok, o_ok), "type-flags", "flags of a bundle type")?;
        for s in 0..6usize {
            for o in 0..6usize {
                ctx.check_eq(ty.num_actions(s, o).ok(), expected_actions(&ty, s, o), "num-actions", &format!("num_actions({s},{o}) of {}", ty_name(&ty)))?;
            }
        }

        for _ in 0..4 {
            let s = [0, 1, 2, ctx.pick("na.s", 3000), 1 << ctx.pick("na.bit", 60)][ctx.pick("na.sk", 5)];
            let o = [0, 1, 2, ctx.pick("na.o", 3000), 1 << ctx.pick("na.bit", 60)][ctx.pick("na.ok", 5)];
            ctx.check_eq(ty.num_actions(s, o).ok(), expected_actions(&ty, s, o), "num-actions", &format!("num_actions({s},{o}) of {}", ty_name(&ty)))?;
        }

        // The tree holds a few notes of each party; wrong witnesses and wrong keys circulate.
        let mut tree = Sparse::new(Some(ctx.u64("filler")));
        let k = ctx.range("notes", 1, 3);
        let mut notes = vec![];
        for _ in 0..k {
            let party = ctx.pick("note.party", parties.len());
            let scope = SCOPES[ctx.pick("note.scope", 2)];
            let value = small_value(ctx);
            let j = diversifier_index(ctx);
            let n = mint(ctx, &parties[party].addr(j, scope), value);
            let mut pos = position(ctx);
            while tree.leaves.contains_key(&pos) {
                pos = pos.wrapping_add(1);
            }
            tree.insert(pos, cmx_of(&n));
            notes.push((party, scope, n, pos));
        }
        let root = tree.root();
        let notes: Vec<PSpend> = notes
            .into_iter()
            .map(|(party, scope, note, pos)| PSpend { party, scope, r: rnote(&note), note, pos, sib: tree.path(pos) })
            .collect();

        let mut b = Builder::new(ty, anchor(&root));
        let (mut spends, mut outs): (Vec<PSpend>, Vec<POut>) = (vec![], vec![]);
        let steps = ctx.range("steps", 1, 7);
        for _ in 0..steps {
            let before = observe(&b);
            let op = ctx.pick("op", 5);
            let (name, ok, want) = match op {
                0 | 1 | 2 => {
                    // a note is spent at most once
                    let free: Vec<&PSpend> = notes.iter().filter(|n| !spends.iter().any(|s| s.r == n.r)).collect();
                    let Some(n) = free.get(ctx.pick("op.note", free.len().max(1))).map(|n| (*n).clone()) else { continue };
                    let bad = if op == 2 { ctx.range("op.bad", 1, 3) } else { 0 };
                    let (mut sib, mut pos, mut who) = (n.sib, n.pos, n.party);
                    match bad {
                        1 => {
                            ctx.fault("witness.corrupt");
                            let l = ctx.pick("op.level", 32);
                            sib[l] = canonical_fp(ctx, "op.sibling");
                        }
                        2 => {
                            ctx.fault("witness.wrong_position");
                            pos ^= 1 << ctx.pick("op.level", 32);
                        }
                        3 => {
                            ctx.fault("key.wrong");
                            who = (who + 1) % parties.len();
                        }
                        _ => {}
                    }
                    let owned = parties[who].r.fvk.ivk(rscope(n.scope)).unwrap().owns(&n.r.addr);
                    let path_ok = n.r.value == 0 || path_root(&cmx_of(&n.note), pos, &sib) == Some(root);
                    let want = if !s_ok {
                        Err(SpendError::SpendsDisabled)
                    } else if !owned {
                        Err(SpendError::FvkMismatch)
                    } else if !path_ok {
                        Err(SpendError::AnchorMismatch)
                    } else {
                        Ok(())
                    };
                    let got = b.add_spend(parties[who].fvk.clone(), n.note, merkle_path(pos, &sib));
                    if got.is_ok() {
                        let mut m = n.clone();
                        m.pos = pos;
                        m.sib = sib;
                        spends.push(m);
                    }
                    (format!("add_spend bad={bad} -> {got:?}"), got.is_ok(), got == want)
                }
                _ => {
                    let o = make_out(ctx, &parties, false);
                    let got = b.add_output(o.ovk.map(OutgoingViewingKey::from), o.addr, NoteValue::from_raw(o.value), o.memo);
                    let want = got.is_ok() == o_ok;
                    if got.is_ok() {
                        outs.push(o);
                    }
                    (format!("add_output -> {got:?}"), got.is_ok(), want)
                }
            };
            ctx.log(&name);
            ctx.state(&name);
            ctx.check(want, "add-verdict", || format!("{}: {name}", ty_name(&ty)))?;
            if !ok {
                ctx.probe("refused");
                ctx.check_eq(observe(&b), before, "refused-changed-builder", "builder after a refused operation")?;
            }
            ctx.check_eq(observe(&b), model(&spends, &outs), "builder-contents", "contents of the builder")?;
        }

        // The builder path.
        let plan = Plan { parties, ty, anchor: root, spends, outs };
        let rng = ctx.rng("build");
        let built = match b.build::<i64>(rng) {
            Ok(x) => x,
            Err(e) => return ctx.violation("build-refused", format!("{}: {e:?}", plan.describe())),
        };
        super::c13_shape::judge(ctx, &plan, &built)?;
        let nothing = plan.spends.is_empty() && plan.outs.is_empty();
        ctx.check_eq(built.is_none(), nothing && (coinbase || !req), "empty-bundle", "whether a bundle was withheld")?;
        ctx.probe(if built.is_some() { "built" } else { "withheld" });

        // The custom-builder path: what the builder's add would have refused is refused here.
        let want_s = ctx.pick("custom.spends", 3).min(notes.len());
        let want_o = ctx.pick("custom.outs", 3);
        let bad = ctx.chance("custom.bad_anchor", 1, 4);
        let mut infos = vec![];
        let mut used = vec![];
        for n in notes.iter().take(want_s) {
            let mut sib = n.sib;
            if bad && used.is_empty() {
                sib[ctx.pick("custom.level", 32)] = canonical_fp(ctx, "custom.sibling");
            }
            let Some(i) = SpendInfo::new(plan.parties[n.party].fvk.clone(), n.note, merkle_path(n.pos, &sib)) else {
                return ctx.violation("spend-info-refused", "SpendInfo::new refused the owner");
            };
            let mut m = n.clone();
            m.sib = sib;
            used.push(m);
            infos.push(i);
        }
        let stranger = Party::new(ctx, "stranger");
        if let Some(n) = notes.first() {
            let got = SpendInfo::new(stranger.fvk.clone(), n.note, n.path());
            ctx.check(got.is_none(), "spend-info-stranger", || "SpendInfo::new accepted a key that does not own the note".into())?;
        }
        let mut couts = vec![];
        for _ in 0..want_o {
            couts.push(make_out(ctx, &plan.parties, false));
        }
        let oinfos = couts.iter().map(|o| OutputInfo::new(o.ovk.map(OutgoingViewingKey::from), o.addr, NoteValue::from_raw(o.value), o.memo)).collect();
        let paths_ok = used.iter().all(|s| s.r.value == 0 || path_root(&cmx_of(&s.note), s.pos, &s.sib) == Some(root));
        let plan2 = Plan { spends: used, outs: couts, ..plan };
        let rng = ctx.rng("build2");
        let got = build_bundle::<i64>(rng, anchor(&root), ty, infos, oinfos);
        let (ns, no) = (plan2.spends.len(), plan2.outs.len());
        ctx.log(format!("bundle({ns},{no}) paths_ok={paths_ok} -> {}", match &got { Ok(Some(_)) => "bundle".into(), Ok(None) => "none".into(), Err(e) => format!("{e:?}") }));
        let allowed = (ns == 0 || s_ok) && (no == 0 || o_ok);
        ctx.check_eq(got.is_ok(), allowed && paths_ok, "bundle-verdict", "whether building is allowed")?;
        if let Err(e) = &got {
            ctx.probe("bundle_refused");
            let fits = match e {
                BuildError::SpendsDisabled => ns > 0 && !s_ok,
                BuildError::OutputsDisabled => no > 0 && !o_ok,
                BuildError::AnchorMismatch => !paths_ok,
                BuildError::BundleTypeNotSatisfiable => !allowed,
                _ => false,
            };
            ctx.check(fits, "bundle-error", || format!("{}: error {e:?} for {ns} spends and {no} outputs", ty_name(&ty)))?;
        }
        if let Ok(b2) = got {
            super::c13_shape::judge(ctx, &plan2, &b2)?;
            if let Some((b2, _)) = &b2 {
                let mut rng = ctx.rng("sign");
                let msg = sighash(b2, b"");
                let asks = plan2.asks();
                let a = Ideal::default().prove(ctx, b2.clone()).apply_signatures(&mut rng, msg, &asks);
                let Ok(a) = a else { return ctx.violation("sign", "signing failed") };
                // The published flag byte says exactly what the type allows.
                ctx.check_eq(Wire::of(&a).flags, s_ok as u8 | (o_ok as u8) << 1, "flags", "published flag byte")?;
                ctx.log_bytes("bundle", &Wire::of(&a).encode());
                if !s_ok {
                    // every spend in it is a dummy: nobody here owns one
                    let acts = ractions(&a);
                    let nfs: BTreeSet<_> = acts.iter().map(|a| a.nf).collect();
                    for n in &notes {
                        let nf = n.r.nullifier(&plan2.parties[n.party].r.fvk.nk).unwrap();
                        ctx.check(!nfs.contains(&nf), "disabled-spend", || "a note is spent in a bundle with spends disabled".into())?;
                    }
                }
            }
        }
        let _ = Scope::External;
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C14",
        scenario: Box::new(S),
        quick_runs: 2_800,
        thorough_runs: 80_000,
        rule: "Each run drives one builder of a random bundle type through a random sequence of accepted and refused operations (corrupt witnesses, wrong positions, wrong keys, disabled kinds), then builds through both public paths and compares every verdict, the builder's contents after each step, the flags and the bundle with the model.",
        real: &["orchard::builder", "orchard::bundle::Flags", "orchard::tree::MerklePath::root"],
        stub: &["proof system (ideal functionality)", "note commitment tree contents"],
        assumptions: &["reference tree, key and note model in sim/src/refm.rs"],
    }
}
