//! Bundles on their way through a wallet's stages: remote signers that fail half-way, amounts
//! converted for other layers, crashes and retries. A stage changes what it is about and
//! nothing else.
use std::fmt;

use nonempty::NonEmpty;
use orchard::bundle::{Authorization, Bundle, Flags};
use orchard::Action;

use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

/// A wallet's own stage, with something known about the bundle and about every spend.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Stage(u64);
impl Authorization for Stage {
    type SpendAuth = u64;
}
/// Another one, of another shape.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Other {
    stage: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct OtherSlot {
    slot: String,
}
impl Authorization for Other {
    type SpendAuth = OtherSlot;
}
/// An amount type of another layer.
struct Zat(i128);
impl fmt::Debug for Zat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}zat", self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Model {
    actions: Vec<RAction>,
    slots: Vec<u64>,
    stage: u64,
    flags: u8,
    balance: i64,
    anchor: [u8; 32],
}
type B = Bundle<Stage, i64>;
fn model(b: &B) -> Model {
    Model {
        actions: ractions(b),
        slots: b.actions().iter().map(|a| *a.authorization()).collect(),
        stage: b.authorization().0,
        flags: b.flags().to_byte(),
        balance: *b.value_balance(),
        anchor: b.anchor().to_bytes(),
    }
}
impl Model {
    fn bundle(&self) -> Option<B> {
        let acts = self.actions.iter().zip(&self.slots).map(|(a, s)| action_from(a, *s)).collect::<Option<Vec<_>>>()?;
        Some(Bundle::from_parts(NonEmpty::from_vec(acts)?, Flags::from_byte(self.flags)?, self.balance, anchor(&self.anchor), Stage(self.stage)))
    }
    fn effects(&self) -> [u8; 32] {
        txid_digest(&self.actions, self.flags, self.balance, &self.anchor)
    }
}
fn same(ctx: &mut Ctx, b: &B, m: &Model, op: &str) -> Res {
    let got = model(b);
    let what = |x: &str| format!("{x} after {op}");
    ctx.check_eq(got.actions.len(), m.actions.len(), "stage-actions", &what("number of actions"))?;
    for (i, (g, w)) in got.actions.iter().zip(&m.actions).enumerate() {
        for (name, x, y) in [("nf", &g.nf[..], &w.nf[..]), ("rk", &g.rk, &w.rk), ("cmx", &g.cmx, &w.cmx), ("cv", &g.cv, &w.cv), ("epk", &g.epk, &w.epk), ("enc", &g.enc, &w.enc), ("out", &g.out, &w.out)] {
            ctx.check(x == y, "stage-action", || format!("{name} of action {i} after {op}"))?;
        }
    }
    ctx.check_eq(&got.slots, &m.slots, "stage-slots", &what("the spends' authorizations"))?;
    ctx.check_eq(got.stage, m.stage, "stage-bundle", &what("the bundle's authorization"))?;
    ctx.check_eq(got.flags, m.flags, "stage-flags", &what("flags"))?;
    ctx.check_eq(got.balance, m.balance, "stage-balance", &what("value balance"))?;
    ctx.check_eq(got.anchor, m.anchor, "stage-anchor", &what("anchor"))?;
    ctx.check(<[u8; 32]>::from(b.commitment()) == m.effects(), "stage-digest", || what("effects digest"))
}

/// What a remote signer answers for a spend, and the order in which it is asked.
struct Signer {
    asked: Vec<(u64, u64)>,
    stepped: usize,
    /// The spend it fails at (its length: at the closing step), if at all.
    fails_at: Option<usize>,
}
const FAIL: u64 = 77;
fn answer(stage: u64, slot: u64) -> u64 {
    mix(stage ^ slot.rotate_left(17))
}

#[derive(Clone)]
enum Msg {
    Op(usize, bool),
    Crash,
}

fn pipeline(ctx: &mut Ctx) -> Res {
    let plan = make_plan(ctx, PlanCfg { max_spends: 4, max_outs: 4, big: 24, ..Default::default() });
    let rng = ctx.rng("build");
    let Some((b, _)) = plan.build_ok(ctx, false, rng)? else { return Ok(()) };
    // Into the wallet's own stage.
    let mut n = 0;
    let before = ractions(&b);
    let b: B = b.map_authorization(
        &mut n,
        |n: &mut u64, _, _| {
            *n += 1;
            *n
        },
        |n, _| Stage(*n),
    );
    let k = b.actions().len();
    let mut m = Model {
        actions: before,
        slots: (1..=k as u64).collect(),
        stage: k as u64,
        flags: b.flags().to_byte(),
        balance: *b.value_balance(),
        anchor: plan.anchor,
    };
    same(ctx, &b, &m, "entering the wallet's stages")?;
    let mut b = Some(b);
    let mut durable = m.clone();

    let mut net: Net<Msg> = Net::new(NetCfg::choose(ctx));
    for i in 0..ctx.range("ops", 2, 12) {
        let at = ctx.range("op.at", 0, 40) as u64 * 100_000 + i as u64;
        if ctx.pick("crash", 6) == 1 {
            net.timer(ctx, 0, at, Msg::Crash);
        } else {
            let op = ctx.pick("op", 8);
            let fails = ctx.pick("op.fails", 3) == 1;
            net.timer(ctx, 0, at, Msg::Op(op, fails));
        }
    }
    loop {
        let Some((_, _, msg)) = net.next(ctx) else { break };
        let Msg::Op(op, fails) = msg else {
            // Whatever was not made durable is lost.
            ctx.fault("crash.restart");
            m = durable.clone();
            b = m.bundle();
            match &b {
                Some(b) => same(ctx, b, &m, "a restart")?,
                None => return ctx.violation("stage-reload", "a stored bundle does not load"),
            }
            continue;
        };
        let x = b.take().unwrap();
        let at = if fails { Some(ctx.pick("fails.at", k + 1)) } else { None };
        let mut signer = Signer { asked: vec![], stepped: 0, fails_at: at };
        let mut want = m.clone();
        for s in want.slots.iter_mut() {
            *s = answer(m.stage, *s);
        }
        want.stage = mix(m.stage);
        let asked: Vec<(u64, u64)> = m.slots.iter().map(|s| (m.stage, *s)).collect();
        let name;
        ctx.log(format!("op {op} fails {at:?} stage {}", m.stage));
        match op {
            0 => {
                name = "map_authorization";
                let y = x.map_authorization(
                    &mut signer,
                    |s, t: &Stage, a| {
                        s.asked.push((t.0, a));
                        answer(t.0, a)
                    },
                    |s, t| {
                        s.stepped += 1;
                        Stage(mix(t.0))
                    },
                );
                ctx.check_eq(&signer.asked, &asked, "stage-asked", "what a signer was asked")?;
                ctx.check_eq(signer.stepped, 1, "stage-stepped", "closing steps")?;
                m = want;
                b = Some(y);
            }
            1 | 2 => {
                name = "try_map_authorization";
                // The signer may fail; the wallet keeps a copy to try again.
                let copy = x.clone();
                let r: Result<B, (u64, usize)> = x.try_map_authorization(
                    &mut signer,
                    |s: &mut Signer, t: &Stage, a| {
                        let i = s.asked.len();
                        s.asked.push((t.0, a));
                        if s.fails_at == Some(i) {
                            Err((FAIL, i))
                        } else {
                            Ok(answer(t.0, a))
                        }
                    },
                    |s, t| {
                        s.stepped += 1;
                        if s.fails_at == Some(s.asked.len()) {
                            Err((FAIL, s.asked.len()))
                        } else {
                            Ok(Stage(mix(t.0)))
                        }
                    },
                );
                match (r, at) {
                    (Ok(y), None) => {
                        ctx.check_eq(&signer.asked, &asked, "stage-asked", "what a signer was asked")?;
                        ctx.check_eq(signer.stepped, 1, "stage-stepped", "closing steps")?;
                        m = want;
                        b = Some(y);
                    }
                    (Err(e), Some(i)) => {
                        ctx.fault("signer.fails");
                        ctx.check_eq(e, (FAIL, i), "stage-error", "the error of a failing signer")?;
                        ctx.check(asked.starts_with(&signer.asked), "stage-asked", || format!("a failing signer was asked {:?}, of {asked:?}", signer.asked))?;
                        b = Some(copy);
                    }
                    (r, at) => return ctx.violation("stage-failure", format!("failing at {at:?}: {}", if r.is_ok() { "succeeded" } else { "failed" })),
                }
            }
            3 => {
                name = "try_map_value_balance";
                let copy = x.clone();
                let r: Result<Bundle<Stage, Zat>, u64> = x.try_map_value_balance(|v| if fails { Err(FAIL) } else { Ok(Zat(v as i128)) });
                match r {
                    Err(e) => {
                        ctx.fault("conversion.fails");
                        ctx.check(fails && e == FAIL, "stage-error", || format!("conversion error {e}"))?;
                        b = Some(copy);
                    }
                    Ok(y) => {
                        ctx.check(!fails, "stage-failure", || "a failed conversion succeeded".into())?;
                        ctx.check_eq(y.value_balance().0, m.balance as i128, "stage-balance", "the converted balance")?;
                        // Back, as something else.
                        let to = [m.balance, 0, i64::MIN, i64::MAX, -1][ctx.pick("balance.to", 5)];
                        let z = y.try_map_value_balance(|_| Ok::<i64, ()>(to));
                        m.balance = to;
                        b = z.ok();
                    }
                }
            }
            4 => {
                name = "a copy";
                let y = x.clone();
                drop(x);
                b = Some(y);
            }
            5 => {
                name = "Action::map";
                let mut acts = vec![];
                let mut calls = vec![];
                for a in x.actions().iter() {
                    acts.push(a.clone().map(|s| {
                        calls.push(s);
                        OtherSlot { slot: s.to_string() }
                    }));
                }
                ctx.check_eq(&calls, &m.slots, "stage-asked", "what the actions were mapped from")?;
                let o = Bundle::<Other, i64>::from_parts(NonEmpty::from_vec(acts).unwrap(), *x.flags(), *x.value_balance(), *x.anchor(), Other { stage: x.authorization().0.to_le_bytes().to_vec() });
                ctx.check(<[u8; 32]>::from(o.commitment()) == m.effects(), "stage-digest", || "effects digest in another stage".into())?;
                let back = o.map_authorization(
                    &mut (),
                    |_, t: &Other, s| {
                        assert_eq!(t.stage.len(), 8);
                        s.slot.parse::<u64>().unwrap()
                    },
                    |_, t| Stage(u64::from_le_bytes(t.stage[..].try_into().unwrap())),
                );
                b = Some(back);
            }
            6 => {
                name = "Action::try_map";
                let mut acts: Vec<Action<u64>> = vec![];
                let mut failed = None;
                for (i, a) in x.actions().iter().enumerate() {
                    match a.clone().try_map(|s| if at == Some(i) { Err((FAIL, s)) } else { Ok(answer(m.stage, s)) }) {
                        Ok(a) => acts.push(a),
                        Err(e) => {
                            ctx.fault("signer.fails");
                            ctx.check_eq(e, (FAIL, m.slots[i]), "stage-error", "the error of a failing signer")?;
                            failed = Some(i);
                            break;
                        }
                    }
                }
                ctx.check_eq(failed, at.filter(|i| *i < k), "stage-failure", "where signing failed")?;
                b = if failed.is_none() {
                    m.slots = want.slots;
                    Some(Bundle::from_parts(NonEmpty::from_vec(acts).unwrap(), *x.flags(), *x.value_balance(), *x.anchor(), x.authorization().clone()))
                } else {
                    Some(x)
                };
            }
            _ => {
                name = "storing";
                durable = model(&x);
                ctx.check(durable == m, "stage-store", || "what is stored".into())?;
                b = Some(x);
            }
        }
        match &b {
            Some(b) => same(ctx, b, &m, name)?,
            None => return ctx.violation("stage-lost", format!("{name} lost the bundle")),
        }
    }
    ctx.state(&format!("{}/{k}", plan.shape()));
    Ok(())
}

/// The crate's own stages, with and without detours that change nothing.
fn detours(ctx: &mut Ctx) -> Res {
    let plan = make_plan(ctx, PlanCfg { max_spends: 4, max_outs: 3, big: 12, ..Default::default() });
    let seed: [u8; 32] = ctx.bytes("build");
    let rng = || <rand_chacha::ChaCha12Rng as rand_core::SeedableRng>::from_seed(seed);
    let msg: [u8; 32] = ctx.bytes("msg");
    let mut done: Vec<Wire> = vec![];
    let proof: Vec<u8> = ctx.bytes::<64>("proof").to_vec();
    for detour in [false, true] {
        let Some((b, _)) = plan.build_ok(ctx, false, rng())? else { return Ok(()) };
        let way = |ctx: &mut Ctx| if detour { ctx.pick("detour", 4) } else { 0 };
        macro_rules! round {
            ($b:ident) => {
                match way(ctx) {
                    1 => $b.map_authorization(&mut (), |_, _, a| a, |_, x| x),
                    2 => match $b.try_map_authorization(&mut (), |_, _, a| Ok::<_, ()>(a), |_, x| Ok(x)) {
                        Ok(b) => b,
                        Err(()) => return ctx.violation("stage-failure", "a detour failed"),
                    },
                    3 => $b.try_map_value_balance(|v| Ok::<_, ()>(Zat(v as i128))).unwrap().try_map_value_balance(|v| i64::try_from(v.0)).unwrap(),
                    _ => $b,
                }
            };
        }
        let b = round!(b);
        let b = if detour && ctx.pick("detour.copy", 2) == 1 { b.clone() } else { b };
        let b = attach_proof(b, proof.clone());
        let b = round!(b);
        let b = if detour && ctx.pick("detour.copy", 2) == 1 { b.clone() } else { b };
        let mut r = rng();
        let p = b.prepare(&mut r, msg);
        let mut p = round!(p);
        for k in plan.asks() {
            p = p.sign(&mut r, &k);
            p = round!(p);
        }
        let a = match p.finalize() {
            Ok(a) => a,
            Err(e) => return ctx.violation("signing-failed", format!("detour {detour}: {e:?}")),
        };
        let a = round!(a);
        let a = if detour && ctx.pick("detour.copy", 2) == 1 { a.clone() } else { a };
        ctx.check(signatures_ok(&a, &msg), "stage-signatures", || format!("signatures, detour {detour}"))?;
        let w = Wire::of(&a);
        ctx.log_bytes("authorized", &w.encode());
        done.push(w);
    }
    ctx.check(done[0] == done[1], "stage-detour", || "the bundle that took detours differs".into())?;
    ctx.state(&format!("detour/{}", plan.shape()));
    Ok(())
}

struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        if ctx.pick("play", 3) == 1 {
            detours(ctx)
        } else {
            pipeline(ctx)
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C25",
        scenario: Box::new(S),
        quick_runs: 2000,
        thorough_runs: 60_000,
        rule: "Each run takes a built bundle through a random sequence of stages (mapping authorizations by a signer that may fail at any spend or at the closing step, converting amounts, copying, taking actions apart, storing, crashing and reloading) beside a model of its parts; or through the crate's own signing stages twice with the same entropy, once with detours that must change nothing.",
        real: &["orchard::bundle", "orchard::action", "orchard::builder"],
        stub: &["proofs (bytes only)", "the wallet's stages, signers and storage"],
        assumptions: &[],
    }
}
