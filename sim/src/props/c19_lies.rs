//! Provers that lie: an action's statement can be proved exactly when it is true.
use ff::{Field, PrimeField};
use group::GroupEncoding;
use halo2_proofs::dev::MockProver;
use orchard::builder::SpendInfo;
use orchard::circuit::{Circuit, Instance, Proof};
use orchard::keys::Scope;
use orchard::note::{ExtractedNoteCommitment, Nullifier};
use orchard::primitives::redpallas;
use orchard::value::{ValueCommitTrapdoor, ValueCommitment};
use orchard::{Address, Anchor};

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{guarded, Scenario, Spec};
use crate::world::*;
use crate::zk::*;

/// What a prover claims to know, as it is given to the prover and as the model sees it.
#[derive(Clone)]
struct Claim {
    c: Circuit,
    w: Witness,
}

#[derive(Clone)]
struct Owned {
    party: usize,
    scope: Scope,
    r: RNote,
    pos: u32,
    path: [[u8; 32]; 32],
}

const INPUTS: &[&str] = &[
    "v_old", "cm_old", "rho_old", "psi_old", "rcm_old", "nk", "ak", "rivk", "g_d_old", "pk_d_old", "path", "pos", "alpha", "g_d_new", "pk_d_new", "v_new", "psi_new",
    "rcm_new", "rcv",
];

fn splice(a: &mut Claim, b: &Claim, what: &str) -> bool {
    match what {
        "path" => a.w.path = b.w.path,
        "pos" => a.w.pos = b.w.pos,
        "g_d_old" => a.w.g_d_old = b.w.g_d_old,
        "pk_d_old" => a.w.pk_d_old = b.w.pk_d_old,
        "v_old" => a.w.v_old = b.w.v_old,
        "rho_old" => a.w.rho_old = b.w.rho_old,
        "psi_old" => a.w.psi_old = b.w.psi_old,
        "rcm_old" => a.w.rcm_old = b.w.rcm_old,
        "cm_old" => a.w.cm_old = b.w.cm_old,
        "alpha" => a.w.alpha = b.w.alpha,
        "ak" => a.w.ak = b.w.ak,
        "nk" => a.w.nk = b.w.nk,
        "rivk" => a.w.rivk = b.w.rivk,
        "g_d_new" => a.w.g_d_new = b.w.g_d_new,
        "pk_d_new" => a.w.pk_d_new = b.w.pk_d_new,
        "v_new" => a.w.v_new = b.w.v_new,
        "psi_new" => a.w.psi_new = b.w.psi_new,
        "rcm_new" => a.w.rcm_new = b.w.rcm_new,
        "rcv" => a.w.rcv = b.w.rcv,
        _ => return false,
    }
    a.c.sim_splice(what, &b.c)
}

fn scalar(ctx: &mut Ctx, label: &str) -> Fq {
    match ctx.pick(&format!("{label}.kind"), 10) {
        1 => Fq::ZERO,
        2 => Fq::ONE,
        3 => -Fq::ONE,
        _ => to_fq(&ctx.bytes(label)),
    }
}
fn value(ctx: &mut Ctx) -> u64 {
    match ctx.pick("v.how", 3) {
        1 => 0,
        2 => any_value(ctx),
        _ => small_value(ctx),
    }
}

/// An action the way a custom builder puts it together.
fn custom(ctx: &mut Ctx, parties: &[Party], o: &Owned) -> Res<Claim> {
    let p = &parties[o.party];
    let nf = o.r.nullifier(&p.r.fvk.nk).unwrap();
    let to = ctx.pick("new.party", parties.len());
    let scope = SCOPES[ctx.pick("new.scope", 2)];
    let j = diversifier_index(ctx);
    let addr = parties[to].addr(j, scope);
    let v = value(ctx);
    let new = loop {
        let r = RNote { addr: addr.to_raw_address_bytes(), value: v, rho: nf, rseed: ctx.bytes("new.rseed") };
        if note_from(&r).is_some() {
            break r;
        }
    };
    let (alpha, rcv) = (scalar(ctx, "alpha"), scalar(ctx, "rcv"));
    let trapdoor = || Option::<ValueCommitTrapdoor>::from(ValueCommitTrapdoor::from_bytes(rcv.to_repr())).unwrap();
    let Some(old) = note_from(&o.r) else { return ctx.violation("harness-note", "a model note does not parse") };
    let spend = || SpendInfo::new(p.fvk.clone(), old, merkle_path(o.pos, &o.path)).unwrap();
    // A new note that does not descend from the old one's nullifier makes no action.
    let bad_rho = match ctx.pick("rho.wrong", 5) {
        0 => o.r.rho,
        1 => o.r.cmx().unwrap(),
        2 => o.r.nullifier(&parties[(o.party + 1) % parties.len()].r.fvk.nk).unwrap(),
        3 => {
            let mut x = nf;
            x[ctx.pick("rho.byte", 31)] ^= 1 << ctx.pick("rho.bit", 8);
            x
        }
        _ => canonical_fp(ctx, "rho"),
    };
    if bad_rho != nf {
        if let Some(n) = note_from(&RNote { rho: bad_rho, ..new.clone() }) {
            let c = Circuit::from_action_context(spend(), n, alpha, trapdoor());
            ctx.check(c.is_none(), "rho-not-checked", || "an action was made from a new note whose rho is not the spent note's nullifier".into())?;
        }
    }
    let c = Circuit::from_action_context(spend(), note_from(&new).unwrap(), alpha, trapdoor());
    let Some(c) = c else { return ctx.violation("context-refused", "no action can be made from a fitting spend and new note") };
    let w = Witness::of(&p.r.fvk, rscope(o.scope), &o.r, o.pos, &o.path, &new, alpha, rcv).unwrap();
    ctx.check_eq(w.nf(), nf, "model", "two ways to derive a nullifier")?;
    Ok(Claim { c, w })
}

fn publics(w: &Witness, anchor: [u8; 32], spends: bool, outputs: bool) -> Option<Public> {
    let nf = w.nf();
    Some(Public { anchor, cv: w.cv(), nf, rk: w.rk(), cmx: w.cmx(&nf)?, spends, outputs })
}
fn instance(x: &Public) -> Option<Instance> {
    Some(Instance::from_parts(
        Option::from(Anchor::from_bytes(x.anchor))?,
        Option::from(ValueCommitment::from_bytes(&x.cv))?,
        Option::from(Nullifier::from_bytes(&x.nf))?,
        redpallas::VerificationKey::try_from(x.rk).ok()?,
        Option::from(ExtractedNoteCommitment::from_bytes(&x.cmx))?,
        x.spends,
        x.outputs,
    ))
}

/// Attacks that are wrong in one place only, everything else being repaired to fit.
const PLOTS: &[&str] = &[
    "none",
    "inflate-value",
    "inflate-note",
    "fake-tree",
    "steal",
    "other-nullifier-key",
    "other-rho",
    "other-psi",
    "other-commitment",
    "other-trapdoor",
    "other-randomness",
    "foreign-descent",
    "false-balance",
    "wrapped-balance",
    "false-output",
    "unrelated-key",
    "other-owner-key",
    "free",
];

struct World {
    parties: Vec<Party>,
    notes: Vec<Owned>,
    root: [u8; 32],
}

fn world(ctx: &mut Ctx) -> World {
    let parties: Vec<Party> = (0..2).map(|i| Party::new(ctx, &format!("p{i}"))).collect();
    let mut t = Sparse::new(Some(ctx.u64("filler")));
    let mut v = vec![];
    for k in 0..3 {
        let party = [0, 1, ctx.pick("owner", 2)][k];
        let scope = SCOPES[ctx.pick("scope", 2)];
        let j = diversifier_index(ctx);
        let val = value(ctx);
        let n = mint(ctx, &parties[party].addr(j, scope), val);
        let mut pos = position(ctx);
        while t.leaves.contains_key(&pos) {
            pos = pos.wrapping_add(1);
        }
        t.insert(pos, cmx_of(&n));
        v.push((party, scope, rnote(&n), pos));
    }
    let notes = v.into_iter().map(|(party, scope, r, pos)| Owned { party, scope, path: t.path(pos), r, pos }).collect();
    World { parties, notes, root: t.root() }
}

/// One claim with its public inputs, true or not.
fn plot(ctx: &mut Ctx, w: &World) -> Res<Option<(Claim, Public, &'static str)>> {
    let me = w.notes[ctx.pick("mine", 3)].clone();
    let mut a = custom(ctx, &w.parties, &me)?;
    let honest = a.w.clone();
    let kind = PLOTS[ctx.pick("plot", PLOTS.len())];
    let (mut sp, mut ou) = match ctx.pick("flags", 6) {
        1 => (false, true),
        2 => (true, false),
        3 => (false, false),
        _ => (true, true),
    };
    if ctx.pick("flags.fit", 3) > 0 && kind != "none" {
        (sp, ou) = (true, true);
    }
    // Another note of the same owner with another value, never in the tree.
    let richer = |ctx: &mut Ctx| -> Res<Claim> {
        let mut o = me.clone();
        while o.r.value == me.r.value {
            o.r.value = any_value(ctx);
        }
        if ctx.pick("richer.seed", 2) == 1 {
            o.r.rseed = ctx.bytes("richer.rseed");
        }
        custom(ctx, &w.parties, &o)
    };
    let mut anchor = w.root;
    let mut x = match publics(&a.w, anchor, sp, ou) {
        Some(x) => x,
        None => return Ok(None),
    };
    let take = |a: &mut Claim, b: &Claim, what: &[&str]| {
        for i in what {
            assert!(splice(a, b, i), "no such input");
        }
    };
    let mut recompute = true;
    match kind {
        "none" => {}
        "inflate-value" => {
            let b = richer(ctx)?;
            take(&mut a, &b, &["v_old"]);
        }
        "inflate-note" => {
            let b = richer(ctx)?;
            take(&mut a, &b, &["v_old", "cm_old", "psi_old", "rcm_old"]);
        }
        "fake-tree" => {
            // A note of one's own making in a tree of one's own making.
            let mut o = me.clone();
            o.r.value = any_value(ctx);
            o.path[ctx.pick("fake.level", 32)] = canonical_fp(ctx, "fake.sibling");
            let b = custom(ctx, &w.parties, &o)?;
            a = b;
            if ctx.pick("fake.anchor", 3) == 1 {
                anchor = a.w.root().unwrap();
            }
        }
        "steal" => {
            // The victim's note under the thief's key.
            let thief = w.notes.iter().find(|n| n.party != me.party).unwrap().clone();
            let b = custom(ctx, &w.parties, &thief)?;
            take(&mut a, &b, &["ak", "nk", "rivk"]);
            if ctx.pick("steal.address", 3) == 1 {
                take(&mut a, &b, &[["pk_d_old", "g_d_old"][ctx.pick("steal.half", 2)]]);
            }
        }
        "other-nullifier-key" | "other-rho" | "other-psi" | "other-commitment" | "other-trapdoor" | "other-owner-key" => {
            let other = w.notes[(w.notes.iter().position(|n| n.r == me.r).unwrap() + 1) % 3].clone();
            let b = custom(ctx, &w.parties, &other)?;
            take(
                &mut a,
                &b,
                match kind {
                    "other-nullifier-key" => &["nk"],
                    "other-rho" => &["rho_old"],
                    "other-psi" => &["psi_old"],
                    "other-commitment" => &["cm_old", "path", "pos"],
                    "other-trapdoor" => &["rcm_old"],
                    _ => &["ak"],
                },
            );
        }
        "other-randomness" => {
            let b = custom(ctx, &w.parties, &me)?;
            let n = ctx.range("other.n", 1, 3);
            for _ in 0..n {
                let what = ["alpha", "rcv", "psi_new", "rcm_new", "rivk", "pos"][ctx.pick("other.what", 6)];
                take(&mut a, &b, &[what]);
            }
            // what was published before stays
            recompute = ctx.pick("other.fix", 2) == 1;
        }
        "foreign-descent" => {
            // The new note descends from some other nullifier, as the public commitment.
            let rho = canonical_fp(ctx, "foreign.rho");
            x.cmx = a.w.cmx(&rho).unwrap();
            recompute = false;
        }
        "false-balance" => {
            let d = [1i128, -1, 1 << 32, -(1 << 63), 1 << 64, -(1 << 64)][ctx.pick("false.by", 6)];
            x.cv = value_commit(a.w.v_old as i128 - a.w.v_new as i128 + d, &a.w.rcv).to_bytes();
            recompute = false;
        }
        "wrapped-balance" => {
            // the same magnitude with the other sign
            x.cv = value_commit(a.w.v_new as i128 - a.w.v_old as i128, &a.w.rcv).to_bytes();
            recompute = false;
        }
        "false-output" => {
            let b = custom(ctx, &w.parties, &me)?;
            let what = ["v_new", "g_d_new", "pk_d_new", "psi_new", "rcm_new"][ctx.pick("false.what", 5)];
            take(&mut a, &b, &[what]);
            x = Public { cv: a.w.cv(), ..x };
            recompute = false;
        }
        "unrelated-key" => {
            let s = scalar(ctx, "unrelated");
            x.rk = (bases().spend_auth_g * s).to_bytes();
            recompute = false;
        }
        _ => {
            let k = ctx.range("free.n", 1, 3);
            for _ in 0..k {
                let o = w.notes[ctx.pick("free.donor", 3)].clone();
                let b = if ctx.pick("free.richer", 3) == 1 { richer(ctx)? } else { custom(ctx, &w.parties, &o)? };
                let what = INPUTS[ctx.pick("free.input", INPUTS.len())];
                take(&mut a, &b, &[what]);
            }
            let Some(y) = publics(&a.w, anchor, sp, ou) else { return Ok(None) };
            if ctx.pick("free.nf", 4) > 0 {
                x.nf = y.nf;
            }
            if ctx.pick("free.rk", 4) > 0 {
                x.rk = y.rk;
            }
            if ctx.pick("free.cv", 4) > 0 {
                x.cv = y.cv;
            }
            if ctx.pick("free.cmx", 4) > 0 {
                x.cmx = y.cmx;
            }
            if ctx.pick("free.anchor", 4) == 1 {
                x.anchor = a.w.root().unwrap();
            }
            recompute = false;
        }
    }
    if recompute {
        x = match publics(&a.w, anchor, sp, ou) {
            Some(x) => x,
            None => return Ok(None),
        };
    }
    if a.w != honest || kind != "none" {
        ctx.fault(&format!("lie.{kind}"));
    }
    Ok(Some((a, x, kind)))
}

struct S;
impl Scenario for S {
    fn prepare(&self, _seed: u64, _thorough: bool) {
        let _ = vk();
        let _ = pk();
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        let w = world(ctx);
        let real = ctx.chance("real", 1, 6);
        let n = if real { ctx.range("n.claims", 1, 2) } else { ctx.range("n.claims", 1, 3) };
        let mut claims = vec![];
        for _ in 0..n {
            if let Some(c) = plot(ctx, &w)? {
                claims.push(c);
            }
        }
        let mut all = true;
        let mut inst = vec![];
        let mut circuits = vec![];
        for (a, x, kind) in &claims {
            let wrong = a.w.wrong(x);
            let Some(i) = instance(x) else { continue };
            ctx.log(format!("{kind}: {}", if wrong.is_empty() { "true".into() } else { wrong.join(", ") }));
            ctx.state(&format!("{kind}/{}", wrong.join(",")));
            match wrong.len() {
                0 => ctx.probe("true"),
                1 => ctx.probe(&format!("only_{}_wrong", wrong[0])),
                _ => ctx.probe("several_wrong"),
            }
            if !real {
                let r = guarded(|| match MockProver::run(Instance::SIM_K, &a.c, i.sim_public_inputs()) {
                    Ok(p) => p.verify().is_ok(),
                    Err(_) => false,
                });
                let got = r.unwrap_or(false);
                ctx.check_eq(got, wrong.is_empty(), "statement", &format!("whether the constraints hold for {kind} (wrong: {wrong:?})"))?;
            }
            all &= wrong.is_empty();
            inst.push(i);
            circuits.push(a.c.clone());
        }
        if real && !circuits.is_empty() {
            ctx.schedule_threads("prove");
            let rng = ctx.rng("prove");
            let proof = guarded(|| Proof::create(pk(), &circuits, &inst, rng).ok());
            let Ok(Some(p)) = proof else {
                ctx.probe("prover_gives_up");
                return ctx.check(!all, "unprovable", || "a true statement cannot be proved".into());
            };
            ctx.schedule_threads("verify");
            let ok = p.verify(vk(), &inst).is_ok();
            ctx.log(format!("proof of {} claims accepted: {ok}", inst.len()));
            ctx.check_eq(ok, all, "proof", &format!("whether a proof of {} is accepted", claims.iter().map(|c| c.2).collect::<Vec<_>>().join(" and ")))?;
            ctx.probe(if ok { "real_accepted" } else { "real_refused" });
            // Another order or company of the claims is another statement.
            if ok && inst.len() == 2 {
                inst.swap(0, 1);
                let ok = p.verify(vk(), &inst).is_ok();
                ctx.check(!ok, "proof", || "a proof is accepted with its claims exchanged".into())?;
                let ok = p.verify(vk(), &inst[..1]).is_ok();
                ctx.check(!ok, "proof", || "a proof of two claims is accepted for one".into())?;
            }
        }
        let _: Option<Address> = None;
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C19",
        scenario: Box::new(S),
        quick_runs: 360,
        thorough_runs: 12_000,
        rule: "Each run puts actions together the way a custom builder does and has a lying prover replace chosen private inputs by those of other actions (other values, notes, owners, keys, paths, randomness) and repair or forge the public inputs so that usually exactly one part of the statement is false; the real constraint system (five runs in six, through halo2's constraint checker) and the real prover and verifier (one in six) must accept exactly the statements the reference finds true.",
        real: &["orchard::circuit (synthesis, constraints, instances, prover and verifier)", "orchard::builder::SpendInfo", "halo2_proofs"],
        stub: &["note commitment tree contents", "halo2_proofs prover (replaced by its constraint checker in five sixths of the runs)"],
        assumptions: &["halo2's argument is sound: what its constraint checker refuses cannot be proved", "a lying prover chooses private inputs freely but lets the crate's synthesis derive intermediate cells", "reference action statement in sim/src/refm.rs"],
    }
}
