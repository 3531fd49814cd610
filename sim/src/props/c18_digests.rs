//! Effects and authorizing digests: the same at every stage and for every party, different
//! for different content, equal to ZIP 244.
use std::collections::BTreeMap;

use orchard::builder::{InProgress, MaybeSigned};
use orchard::bundle::commitments::{hash_bundle_auth_empty, hash_bundle_txid_empty};
use orchard::bundle::{Authorization, Bundle};

use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

fn effects<A: Authorization>(b: &Bundle<A, i64>) -> [u8; 32] {
    b.commitment().into()
}
fn of_hash(h: &[u8]) -> [u8; 32] {
    h.try_into().unwrap()
}

/// A caller's own amount type.
#[derive(Clone, Copy, Debug)]
struct Amount(i64);
impl From<Amount> for i64 {
    fn from(a: Amount) -> i64 {
        a.0
    }
}

pub const EFFECT_FIELDS: usize = 12;
/// Changes one effecting part; returns its name.
pub fn mutate_effect(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.actions.len();
    let i = ctx.pick("mut.action", n);
    let flip = |ctx: &mut Ctx, b: &mut [u8], lo: usize, hi: usize| {
        let at = lo + ctx.pick("mut.byte", hi - lo);
        b[at] ^= 1 << ctx.pick("mut.bit", 8);
    };
    let splice = ctx.pick("mut.splice", 3) == 2;
    let o = other.actions[ctx.pick("mut.other", other.actions.len())].clone();
    let a = &mut w.actions[i];
    let name = match ctx.pick("mut.field", EFFECT_FIELDS) {
        0 => {
            a.nf = if splice { o.nf } else { canonical_fp(ctx, "mut") };
            "nullifier"
        }
        1 => {
            a.cmx = if splice { o.cmx } else { canonical_fp(ctx, "mut") };
            "cmx"
        }
        2 => {
            // a valid point either way
            if splice { a.rk = o.rk } else { a.rk[31] ^= 0x80 }
            "rk"
        }
        3 => {
            if splice { a.cv = o.cv } else { a.cv[31] ^= 0x80 }
            "cv"
        }
        4 => {
            if splice { a.epk = o.epk } else { flip(ctx, &mut a.epk, 0, 32) }
            "epk"
        }
        5 => {
            flip(ctx, &mut a.enc, 0, 52);
            "enc.compact"
        }
        6 => {
            flip(ctx, &mut a.enc, 52, 564);
            "enc.memo"
        }
        7 => {
            flip(ctx, &mut a.enc, 564, 580);
            "enc.tag"
        }
        8 => {
            flip(ctx, &mut a.out, 0, 80);
            "out"
        }
        9 => {
            w.flags ^= 1 << ctx.pick("mut.flag", 2);
            "flags"
        }
        10 => {
            w.balance = match ctx.pick("mut.balance", 4) {
                0 => w.balance.wrapping_add(1),
                1 => w.balance.wrapping_neg(),
                2 => w.balance ^ i64::MIN,
                _ => ctx.u64("mut.balance.v") as i64,
            };
            "balance"
        }
        _ => {
            w.anchor = if splice { other.anchor } else { canonical_fp(ctx, "mut") };
            "anchor"
        }
    };
    name
}

fn mutate_structure(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.actions.len();
    match ctx.pick("str", 5) {
        0 => {
            let (i, j) = (ctx.pick("str.i", n), ctx.pick("str.j", n));
            w.actions.swap(i, j);
            w.sigs.swap(i, j);
            "swap"
        }
        1 if n > 1 => {
            let i = ctx.pick("str.i", n);
            w.actions.remove(i);
            w.sigs.remove(i);
            "remove"
        }
        2 => {
            let i = ctx.pick("str.i", n);
            let a = w.actions[i].clone();
            let s = w.sigs[i];
            w.actions.insert(i, a);
            w.sigs.insert(i, s);
            "repeat"
        }
        3 => {
            let k = ctx.pick("str.k", other.actions.len());
            w.actions.push(other.actions[k].clone());
            w.sigs.push(other.sigs[k]);
            "append"
        }
        _ => {
            // the same bytes, cut differently: last byte of the compact part and first of the memo
            let i = ctx.pick("str.i", n);
            let a = &mut w.actions[i];
            a.enc.swap(51, 52);
            a.enc.swap(563, 564);
            "boundary"
        }
    }
}

fn mutate_auth(ctx: &mut Ctx, w: &mut Wire) -> &'static str {
    match ctx.pick("auth", 6) {
        0 => {
            let at = ctx.pick("auth.byte", w.proof.len().max(1));
            if let Some(b) = w.proof.get_mut(at) {
                *b ^= 1 << ctx.pick("auth.bit", 8);
            }
            "proof"
        }
        1 => {
            let at = ctx.pick("auth.sig", w.sigs.len());
            w.sigs[at][ctx.pick("auth.sbyte", 64)] ^= 1 << ctx.pick("auth.bit", 8);
            "sig"
        }
        2 => {
            w.binding[ctx.pick("auth.sbyte", 64)] ^= 1 << ctx.pick("auth.bit", 8);
            "binding"
        }
        3 => {
            let k = w.sigs.len();
            let (i, j) = (ctx.pick("auth.i", k), ctx.pick("auth.j", k));
            w.sigs.swap(i, j);
            "sig.swap"
        }
        4 => {
            w.proof.push(ctx.pick("auth.extra", 256) as u8);
            "proof.longer"
        }
        _ => {
            w.proof.truncate(ctx.pick("auth.len", w.proof.len().max(1)));
            "proof.shorter"
        }
    }
}

#[derive(Clone)]
struct Packet(Vec<u8>);

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        ctx.check_eq(of_hash(hash_bundle_txid_empty().as_bytes()), blake(b"ZTxIdOrchardHash", 32, &[]).try_into().unwrap(), "empty-digest", "effects digest of the absent bundle")?;
        ctx.check_eq(of_hash(hash_bundle_auth_empty().as_bytes()), blake(b"ZTxAuthOrchaHash", 32, &[]).try_into().unwrap(), "empty-digest", "authorizing digest of the absent bundle")?;
        // Every digest seen in this run, by content.
        let mut by_effect: BTreeMap<[u8; 32], Wire> = BTreeMap::new();
        let mut by_auth: BTreeMap<[u8; 32], Wire> = BTreeMap::new();
        let mut wires: Vec<Wire> = vec![];
        for _ in 0..2 {
            let mut plan = make_plan(ctx, PlanCfg { max_spends: 3, max_outs: 3, big: 12, ..Default::default() });
            if plan.expected_actions() == Some(0) {
                plan.ty = orchard::builder::BundleType::Transactional { flags: plan.ty.flags(), bundle_required: true };
            }
            ctx.log(plan.describe());
            ctx.state(&plan.shape());
            let rng = ctx.rng("build");
            let custom = ctx.pick("custom", 2) == 1;
            let Some((un, _)) = plan.build_ok(ctx, custom, rng)? else {
                return ctx.violation("withheld", "a required bundle was withheld");
            };
            let acts = ractions(&un);
            let (s, o) = intent(&plan.ty.flags());
            let want = txid_digest(&acts, s as u8 | (o as u8) << 1, plan.balance() as i64, &plan.anchor);
            let msg = sighash_of(&want, b"tx");
            // every stage, in either order of proving and signing
            let c = effects(&un);
            ctx.check_eq(c, want, "digest-unproven", "effects digest of the unproven bundle")?;
            let tag = keyed(ctx.u64("proof"), "proof", Wire::canonical_proof_len(acts.len()));
            let (mut r1, mut r2, mut r3) = (ctx.rng("s1"), ctx.rng("s2"), ctx.rng("s3"));
            let keys = plan.asks();
            let a: Auth = if ctx.pick("prove.first", 2) == 0 {
                let p = attach_proof(un, tag);
                ctx.check_eq(effects(&p), want, "digest-proven", "effects digest of the proved bundle")?;
                let mut b = p.prepare(&mut r1, msg);
                ctx.check_eq(effects(&b), want, "digest-prepared", "effects digest of the prepared bundle")?;
                for k in &keys {
                    b = b.sign(&mut r2, k);
                    ctx.check_eq(effects(&b), want, "digest-signing", "effects digest of the partially signed bundle")?;
                }
                let _ = b.actions().iter().filter(|a| matches!(a.authorization(), MaybeSigned::Signature(_))).count();
                let Ok(a) = b.finalize() else { return ctx.violation("finalize", "not finalized") };
                a
            } else {
                let mut b = un.prepare(&mut r3, msg);
                ctx.check_eq(effects(&b), want, "digest-prepared", "effects digest of the prepared, unproven bundle")?;
                for k in &keys {
                    b = b.sign(&mut r2, k);
                    ctx.check_eq(effects(&b), want, "digest-signing", "effects digest of the partially signed, unproven bundle")?;
                }
                let b = b.map_authorization(&mut (), |_, _, a| a, |_, x: InProgress<_, _>| x.sim_with_proof(orchard::Proof::new(tag)));
                ctx.check_eq(effects(&b), want, "digest-proven", "effects digest of the proved, signed bundle")?;
                let Ok(a) = b.finalize() else { return ctx.violation("finalize", "not finalized") };
                a
            };
            ctx.check_eq(effects(&a), want, "digest-authorized", "effects digest of the authorized bundle")?;
            let w = Wire::of(&a);
            let want_auth = w.ref_auth();
            let got_auth = of_hash(a.authorizing_commitment().0.as_bytes());
            ctx.check_eq(got_auth, want_auth, "authorizing-digest", "authorizing digest")?;
            // the amount type is the caller's business
            let typed = a.clone().try_map_value_balance(|v| Ok::<_, ()>(Amount(v))).unwrap();
            ctx.check_eq(<[u8; 32]>::from(typed.commitment()), want, "digest-amount-type", "effects digest with another amount type")?;
            by_effect.insert(want, w.clone());
            by_auth.insert(want_auth, w.clone());
            wires.push(w);
        }

        // Peers receive it: as is, damaged, or changed by somebody in between.
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Packet> = Net::new(cfg);
        let peers = 3;
        let rounds = ctx.range("rounds", 3, 12);
        for _ in 0..rounds {
            let k = ctx.pick("which", wires.len());
            let mut w = wires[k].clone();
            let other = wires[1 - k].clone();
            let mut desc = vec![];
            for _ in 0..ctx.pick("mutations", 3) {
                desc.push(match ctx.pick("kind", 4) {
                    0 | 1 => mutate_effect(ctx, &mut w, &other),
                    2 => mutate_structure(ctx, &mut w, &other),
                    _ => mutate_auth(ctx, &mut w),
                });
                ctx.fault("byzantine.mutated_bundle");
            }
            for d in &desc {
                ctx.probe(&format!("mutated.{d}"));
                ctx.state(d);
            }
            ctx.log(format!("broadcast bundle {k} {desc:?}"));
            for p in 0..peers {
                net.send(ctx, 0, p, Packet(w.encode()));
            }
        }
        while let Some((_, to, Packet(bytes))) = net.next(ctx) {
            let mut bytes = bytes;
            if ctx.chance("wire.corrupt", 1, 10) {
                let at = ctx.pick("wire.byte", bytes.len());
                bytes[at] ^= 1 << ctx.pick("wire.bit", 8);
                ctx.fault("net.corruption");
            }
            let Some(w) = Wire::decode(&bytes) else {
                ctx.probe("undecodable");
                continue;
            };
            let Some(b) = w.parse() else {
                ctx.probe("unparseable");
                continue;
            };
            let e = effects(&b);
            let a = of_hash(b.authorizing_commitment().0.as_bytes());
            ctx.log(format!("peer {to}: {}", hex::encode(&e[..4])));
            ctx.check_eq(e, w.ref_txid(), "digest-parsed", "effects digest of a parsed bundle")?;
            ctx.check_eq(a, w.ref_auth(), "authorizing-digest", "authorizing digest of a parsed bundle")?;
            ctx.check_eq(Wire::of(&b), w.clone(), "reencoding", "parsed bundle written out again")?;
            let same = |x: &Wire, y: &Wire| (&x.actions, x.flags, x.balance, x.anchor) == (&y.actions, y.flags, y.balance, y.anchor);
            if let Some(prev) = by_effect.get(&e) {
                ctx.check(same(prev, &w), "digest-collision", || "two bundles with different effects have one digest".into())?;
            } else {
                for prev in by_effect.values() {
                    ctx.check(!same(prev, &w), "digest-differs", || "one bundle, two digests".into())?;
                }
                by_effect.insert(e, w.clone());
            }
            let auth = |x: &Wire| (x.proof.clone(), x.sigs.clone(), x.binding);
            if let Some(prev) = by_auth.get(&a) {
                if prev.sigs.len() == w.sigs.len() {
                    ctx.check(auth(prev) == auth(&w), "authorizing-collision", || "different authorizing data, one digest".into())?;
                }
            } else {
                by_auth.insert(a, w);
            }
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C18",
        scenario: Box::new(S),
        quick_runs: 3_000,
        thorough_runs: 150_000,
        rule: "Each run follows two bundles through every stage of their life in either order of proving and signing, then broadcasts them and mutants of them (any field, order, number of actions, authorizing data, byte damage) to peers and compares both digests with ZIP 244 computed independently, and with all other digests of the run.",
        real: &["orchard::bundle::commitments", "orchard::bundle", "orchard::builder stages"],
        stub: &["proof bytes are random", "network"],
        assumptions: &["BLAKE2b-256 collisions do not occur", "ZIP 244 as transcribed in sim/src/refm.rs"],
    }
}
