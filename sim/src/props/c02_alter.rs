//! Whatever relays do to a bundle, validators accept exactly what its creator made; and a
//! proof is good for exactly the public inputs it was made for, whoever re-signs.
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::bundle::BatchValidator;
use orchard::circuit::Instance;
use orchard::note::{ExtractedNoteCommitment, Nullifier};
use orchard::primitives::redpallas::{self, SpendAuth};
use orchard::value::ValueCommitment;
use orchard::{Anchor, Proof};

use super::c18_digests::mutate_effect;
use crate::craft::*;
use crate::ctx::*;
use crate::net::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

#[derive(Clone)]
struct Tx {
    w: Wire,
    rest: Vec<u8>,
}

/// What a proof must be bound to.
type Public = Vec<([u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32], bool, bool)>;
fn public(w: &Wire) -> Public {
    w.actions.iter().map(|a| (w.anchor, a.cv, a.nf, a.rk, a.cmx, w.flags & 1 == 1, w.flags & 2 == 2)).collect()
}

fn originals(ctx: &mut Ctx) -> Res<Vec<Tx>> {
    let c = corpus();
    let mut v = vec![];
    for k in 0..3 {
        if c.is_empty() {
            break;
        }
        let e = &c[ctx.pick("entry", c.len())];
        let mut rest = format!("tx {k} ").into_bytes();
        rest.extend(ctx.u64("rest").to_le_bytes());
        let msg = sighash(&e.un, &rest);
        let Ok(a) = e.proven().apply_signatures(ctx.rng("sign"), msg, &e.plan.asks()) else { continue };
        // Honest acceptance is C01's business.
        if !node_accepts(&a, &msg) {
            continue;
        }
        ctx.log(format!("sender {k}: {} of {}", e.name, a.actions().len()));
        ctx.state(&e.name);
        v.push(Tx { w: Wire::of(&a), rest });
    }
    if v.is_empty() {
        return ctx.violation("corpus", "no honest bundle was accepted");
    }
    Ok(v)
}

/// A byte string that encodes the same thing in another way, when there is one.
fn reencode(x: &[u8; 32], kind: usize) -> Option<[u8; 32]> {
    match kind {
        0 => noncanonical_fp(x),
        1 => noncanonical_fq(x),
        _ => noncanonical_pt(x),
    }
}

fn alter_proof(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.proof.len();
    let words = n / 32;
    match ctx.pick("proof.how", 9) {
        0 => {
            w.proof[ctx.pick("proof.at", n)] ^= 1 << ctx.pick("proof.bit", 8);
            "proof.bit"
        }
        1 => {
            w.proof.truncate(ctx.pick("proof.cut", n));
            "proof.truncated"
        }
        2 => {
            let at = ctx.pick("proof.word", words) * 32;
            w.proof[at..at + 32].fill(0);
            "proof.zeroed"
        }
        3 => {
            let (i, j) = (ctx.pick("proof.i", words) * 32, ctx.pick("proof.j", words) * 32);
            for k in 0..32 {
                w.proof.swap(i + k, j + k);
            }
            "proof.swapped"
        }
        4 => {
            w.proof = other.proof.clone();
            "proof.other"
        }
        5 => {
            let at = ctx.pick("proof.word", words.min(other.proof.len() / 32)) * 32;
            w.proof[at..at + 32].copy_from_slice(&other.proof[at..at + 32]);
            "proof.spliced"
        }
        6 => {
            // the other encodings of one of its numbers or points
            let at = ctx.pick("proof.word", words) * 32;
            let x: [u8; 32] = w.proof[at..at + 32].try_into().unwrap();
            let k = ctx.pick("proof.kind", 3);
            if let Some(y) = reencode(&x, k) {
                w.proof[at..at + 32].copy_from_slice(&y);
            }
            "proof.reencoded"
        }
        7 => {
            // a number a little off, or a point's mirror image
            let at = ctx.pick("proof.back", words) * 32;
            let at = n - 32 - at;
            let x: [u8; 32] = w.proof[at..at + 32].try_into().unwrap();
            if ctx.pick("proof.neg", 2) == 1 {
                w.proof[at + 31] ^= 0x80;
            } else if let Some(f) = fp(&x) {
                w.proof[at..at + 32].copy_from_slice(&(f + Fp::ONE).to_repr());
            }
            "proof.shifted"
        }
        _ => {
            let at = ctx.pick("proof.from", n);
            w.proof.drain(at..(at + 32).min(n));
            w.proof.resize(n, 0);
            "proof.slid"
        }
    }
}

fn alter_sig(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.sigs.len();
    let i = ctx.pick("sig.of", n + 1);
    let get = |w: &Wire, i: usize| if i == w.sigs.len() { w.binding } else { w.sigs[i] };
    let mut s = get(w, i);
    let name = match ctx.pick("sig.how", 8) {
        0 => {
            s[ctx.pick("sig.byte", 64)] ^= 1 << ctx.pick("sig.bit", 8);
            "sig.bit"
        }
        1 => {
            let j = ctx.pick("sig.from", n + 1);
            let t = get(w, j);
            if j == n {
                w.binding = s;
            } else {
                w.sigs[j] = s;
            }
            s = t;
            "sig.swapped"
        }
        2 => {
            s = get(other, ctx.pick("sig.from", other.sigs.len() + 1));
            "sig.other"
        }
        3 => {
            let x: [u8; 32] = s[32..].try_into().unwrap();
            if let Some(y) = noncanonical_fq(&x) {
                s[32..].copy_from_slice(&y);
            }
            "sig.reencoded"
        }
        4 => {
            let x: [u8; 32] = s[32..].try_into().unwrap();
            if let Some(f) = fq(&x) {
                s[32..].copy_from_slice(&(-f).to_repr());
                s[31] ^= 0x80;
            }
            "sig.negated"
        }
        5 => {
            s = [0; 64];
            "sig.zero"
        }
        6 => {
            let x: [u8; 32] = s[32..].try_into().unwrap();
            if let Some(f) = fq(&x) {
                s[32..].copy_from_slice(&(f + Fq::ONE).to_repr());
            }
            "sig.shifted"
        }
        _ => {
            s[..32].copy_from_slice(&random_point(ctx, "sig.r"));
            "sig.r"
        }
    };
    if i == n {
        w.binding = s;
    } else {
        w.sigs[i] = s;
    }
    name
}

fn point_sum(a: &[u8; 32], b: &Pt) -> [u8; 32] {
    pt(a).map_or(*a, |a| (a + b).to_bytes())
}

/// Moving parts of the public inputs around.
fn alter_inputs(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.actions.len();
    let i = ctx.pick("in.i", n);
    let j = ctx.pick("in.j", n);
    let o = other.actions[ctx.pick("in.o", other.actions.len())].clone();
    match ctx.pick("in.how", 14) {
        0 => {
            // the sum of the value commitments stays what it was
            let d = pt(&random_point(ctx, "in.p")).unwrap();
            if i != j {
                w.actions[i].cv = point_sum(&w.actions[i].cv, &d);
                w.actions[j].cv = point_sum(&w.actions[j].cv, &-d);
            }
            "cv.shifted"
        }
        1 => {
            let t = w.actions[i].cv;
            w.actions[i].cv = w.actions[j].cv;
            w.actions[j].cv = t;
            "cv.swapped"
        }
        2 => {
            let t = w.actions[i].rk;
            w.actions[i].rk = w.actions[j].rk;
            w.actions[j].rk = t;
            let t = w.sigs[i];
            w.sigs[i] = w.sigs[j];
            w.sigs[j] = t;
            "rk.swapped"
        }
        3 => {
            let t = w.actions[i].nf;
            w.actions[i].nf = w.actions[j].nf;
            w.actions[j].nf = t;
            "nf.swapped"
        }
        4 => {
            let t = w.actions[i].cmx;
            w.actions[i].cmx = w.actions[j].cmx;
            w.actions[j].cmx = t;
            "cmx.swapped"
        }
        5 => {
            let t = w.actions[i].nf;
            w.actions[i].nf = w.actions[i].cmx;
            w.actions[i].cmx = t;
            "nf.cmx.swapped"
        }
        6 => {
            w.anchor = w.actions[i].cmx;
            "anchor.cmx"
        }
        7 => {
            let a = &mut w.actions[i];
            a.rk = point_sum(&a.rk, &Pt::generator());
            "rk.shifted"
        }
        8 => {
            let a = &mut w.actions[i];
            a.nf = (fp(&a.nf).unwrap() + Fp::ONE).to_repr();
            "nf.shifted"
        }
        9 => {
            let a = &mut w.actions[i];
            a.cmx = (fp(&a.cmx).unwrap() + Fp::ONE).to_repr();
            "cmx.shifted"
        }
        10 => {
            w.anchor = (fp(&w.anchor).unwrap() + Fp::ONE).to_repr();
            "anchor.shifted"
        }
        11 => {
            w.flags = ctx.pick("in.flags", 4) as u8;
            "flags"
        }
        12 => {
            let a = &mut w.actions[i];
            match ctx.pick("in.identity", 2) {
                0 => a.cv = [0; 32],
                _ => a.rk = [0; 32],
            }
            "identity"
        }
        _ => {
            // everything public of a foreign action, its ciphertexts left
            let a = &mut w.actions[i];
            match ctx.pick("in.take", 3) {
                0 => a.rk = o.rk,
                1 => {
                    a.cv = o.cv;
                    a.nf = o.nf;
                }
                _ => {
                    a.rk = o.rk;
                    a.cv = o.cv;
                    a.nf = o.nf;
                    a.cmx = o.cmx;
                }
            }
            "taken"
        }
    }
}

fn alter_structure(ctx: &mut Ctx, w: &mut Wire, other: &Wire) -> &'static str {
    let n = w.actions.len();
    let i = ctx.pick("str.i", n);
    let j = ctx.pick("str.j", n);
    let k = ctx.pick("str.k", other.actions.len());
    match ctx.pick("str.how", 6) {
        0 => {
            w.actions.swap(i, j);
            w.sigs.swap(i, j);
            "order"
        }
        1 => {
            w.actions.reverse();
            w.sigs.reverse();
            "reversed"
        }
        2 => {
            w.actions.remove(i);
            w.sigs.remove(i);
            "fewer"
        }
        3 => {
            let (a, s) = (w.actions[i].clone(), w.sigs[i]);
            w.actions.insert(j, a);
            w.sigs.insert(j, s);
            "repeated"
        }
        4 => {
            w.actions.push(other.actions[k].clone());
            w.sigs.push(other.sigs[k]);
            "more"
        }
        _ => {
            w.actions[i] = other.actions[k].clone();
            w.sigs[i] = other.sigs[k];
            "replaced"
        }
    }
}

fn alter(ctx: &mut Ctx, t: &mut Tx, seen: &[Tx]) {
    if t.w.actions.is_empty() || t.w.proof.len() < 64 {
        return;
    }
    let o = &seen[ctx.pick("alter.other", seen.len())];
    let name = match ctx.pick("alter", 16) {
        0..=4 => mutate_effect(ctx, &mut t.w, &o.w),
        5..=7 => alter_inputs(ctx, &mut t.w, &o.w),
        8..=9 => alter_structure(ctx, &mut t.w, &o.w),
        10..=11 => alter_proof(ctx, &mut t.w, &o.w),
        12..=13 => alter_sig(ctx, &mut t.w, &o.w),
        14 => {
            if t.rest != o.rest {
                t.rest = o.rest.clone();
            } else {
                let n = t.rest.len();
                t.rest[ctx.pick("rest.at", n)] ^= 1;
            }
            "transaction"
        }
        _ => {
            // somebody else's authorization
            t.w.proof = o.w.proof.clone();
            t.w.binding = o.w.binding;
            for (s, x) in t.w.sigs.iter_mut().zip(&o.w.sigs) {
                *s = *x;
            }
            "authorization"
        }
    };
    ctx.fault(&format!("altered.{name}"));
    ctx.log(format!("altered: {name}"));
}

/// A validator's verdict on what reached it.
fn judge(ctx: &mut Ctx, t: &Tx, sent: &[Tx]) -> Res<bool> {
    let genuine = sent.iter().any(|s| s.w == t.w && s.rest == t.rest);
    let Some(b) = t.w.parse() else {
        ctx.check(!genuine, "refused", || "an original does not parse".into())?;
        ctx.probe("refused_at_parsing");
        return Ok(false);
    };
    let msg = sighash(&b, &t.rest);
    let sigs = signatures_ok(&b, &msg);
    if !genuine {
        // Something else than the proof may have let it through, or only the proof stops it.
        let bound = sent.iter().any(|s| s.w.proof == t.w.proof && public(&s.w) == public(&t.w));
        ctx.schedule_threads("verify");
        let proof = b.verify_proof(vk()).is_ok();
        ctx.log(format!("altered bundle: proof {proof} signatures {sigs}"));
        ctx.check_eq(proof, bound, "proof-binding", "whether the proof of an altered bundle is accepted")?;
        ctx.check(!(proof && sigs), "accepted-altered", || "an altered bundle was accepted".into())?;
        ctx.probe(match (proof, sigs) {
            (true, _) => "stopped_by_signatures_only",
            (_, true) => "stopped_by_proof_only",
            _ => "stopped_by_both",
        });
        if ctx.pick("batch", 4) == 1 {
            let mut v = BatchValidator::new();
            v.add_bundle(&b, msg);
            let ok = v.validate(vk(), ctx.rng("batch"));
            ctx.check(!ok, "accepted-altered", || "an altered bundle was accepted in a batch".into())?;
        }
        return Ok(false);
    }
    ctx.schedule_threads("verify");
    ctx.check(sigs && b.verify_proof(vk()).is_ok(), "refused", || "an original was refused".into())?;
    Ok(true)
}

#[derive(Clone)]
enum Msg {
    Tx(Tx),
}

/// Senders, malicious relays and validators.
fn relays(ctx: &mut Ctx) -> Res {
    let sent = originals(ctx)?;
    let mut net: Net<Msg> = Net::new(NetCfg::choose(ctx));
    let (s0, r0, v0) = (0, 10, 20);
    for (k, t) in sent.iter().enumerate() {
        for r in 0..2 {
            net.send(ctx, s0 + k, r0 + r, Msg::Tx(t.clone()));
        }
    }
    let mut seen: Vec<Vec<Tx>> = vec![vec![], vec![]];
    let budget = if ctx.thorough { 40 } else { 12 };
    let mut judged = 0;
    while let Some((_, to, Msg::Tx(t))) = net.next(ctx) {
        if to < v0 {
            let r = to - r0;
            seen[r].push(t.clone());
            for _ in 0..ctx.range("relay.copies", 1, 4) {
                let k = ctx.pick("relay.which", seen[r].len());
                let mut x = seen[r][seen[r].len() - 1 - k].clone();
                for _ in 0..[1, 1, 2, 0][ctx.pick("relay.alter", 4)] {
                    alter(ctx, &mut x, &seen[r].clone());
                }
                let v = v0 + ctx.pick("relay.to", 2);
                net.send(ctx, to, v, Msg::Tx(x));
            }
        } else if judged < budget {
            judged += 1;
            let ok = judge(ctx, &t, &sent)?;
            ctx.state(if ok { "ok" } else { "no" });
        }
    }
    // Relays gone: what the senders made arrives and is accepted.
    net.quiesce();
    let k = ctx.pick("direct", sent.len());
    net.send(ctx, s0 + k, v0, Msg::Tx(sent[k].clone()));
    while let Some((_, _, Msg::Tx(t))) = net.next(ctx) {
        let ok = judge(ctx, &t, &sent)?;
        ctx.check(ok, "refused", || "an original was not accepted".into())?;
    }
    Ok(())
}

/// The creator of a bundle alters it afterwards and signs the result afresh.
fn creator(ctx: &mut Ctx) -> Res {
    let sent = originals(ctx)?;
    for _ in 0..if ctx.thorough { 10 } else { 4 } {
        let mut t = sent[0].clone();
        let name = match ctx.pick("creator", 6) {
            0..=2 => alter_inputs(ctx, &mut t.w, &sent[sent.len() - 1].w),
            3 => alter_structure(ctx, &mut t.w, &sent[sent.len() - 1].w),
            4 => mutate_effect(ctx, &mut t.w, &sent[sent.len() - 1].w),
            _ => {
                // a key of the creator's own choosing authorizes the spend
                let i = ctx.pick("own.i", t.w.actions.len());
                let x = Fq::from(2 + ctx.u64("own.key"));
                let k = redpallas::SigningKey::<SpendAuth>::try_from(x.to_repr()).unwrap();
                t.w.actions[i].rk = <[u8; 32]>::from(&redpallas::VerificationKey::from(&k));
                if let Some(b) = t.w.parse() {
                    let msg = sighash(&b, &t.rest);
                    t.w.sigs[i] = <[u8; 64]>::from(&k.sign(ctx.rng("own"), &msg));
                }
                "own-key"
            }
        };
        ctx.fault(&format!("creator.{name}"));
        let Some(b) = t.w.parse() else { continue };
        let same = public(&t.w) == public(&sent[0].w);
        ctx.schedule_threads("verify");
        let ok = b.verify_proof(vk()).is_ok();
        ctx.log(format!("creator alters {name}: proof accepted {ok}"));
        ctx.check_eq(ok, same, "proof-binding", &format!("whether the proof is accepted after {name}"))?;
        ctx.probe(if same { "inputs_same" } else { "inputs_differ" });
        if ctx.pick("creator.batch", 4) == 1 && !same {
            let mut v = BatchValidator::new();
            let msg = sighash(&b, &t.rest);
            v.add_bundle(&b, msg);
            let ok = v.validate(vk(), ctx.rng("batch"));
            ctx.check(!ok, "accepted-altered", || "accepted in a batch".into())?;
        }
    }
    Ok(())
}

/// A proof against lists of instances that were put together freely.
fn instances(ctx: &mut Ctx) -> Res {
    let sent = originals(ctx)?;
    let (t, o) = (&sent[0], &sent[sent.len() - 1]);
    let right = public(&t.w);
    let foreign = public(&o.w);
    for _ in 0..if ctx.thorough { 8 } else { 3 } {
        let mut p = right.clone();
        for _ in 0..ctx.range("n.changes", 0, 2) {
            if p.is_empty() {
                break;
            }
            let n = p.len();
            let i = ctx.pick("inst.i", n);
            let j = ctx.pick("inst.j", n);
            let f = foreign[ctx.pick("inst.f", foreign.len())];
            match ctx.pick("inst.how", 12) {
                0 => p[i].5 = !p[i].5,
                1 => p[i].6 = !p[i].6,
                2 => p[i].0 = f.0,
                3 => p[i].1 = f.1,
                4 => p[i].2 = f.2,
                5 => p[i].3 = f.3,
                6 => p[i].4 = f.4,
                7 => p.swap(i, j),
                8 => {
                    p.remove(i);
                }
                9 => p.push(f),
                10 => p[i] = p[j],
                _ => p[i].0 = canonical_fp(ctx, "inst.anchor"),
            }
            ctx.fault("altered.instances");
        }
        let list: Vec<Instance> = p
            .iter()
            .map(|x| {
                Instance::from_parts(
                    Anchor::from_bytes(x.0).unwrap(),
                    ValueCommitment::from_bytes(&x.1).unwrap(),
                    Nullifier::from_bytes(&x.2).unwrap(),
                    redpallas::VerificationKey::try_from(x.3).unwrap(),
                    ExtractedNoteCommitment::from_bytes(&x.4).unwrap(),
                    x.5,
                    x.6,
                )
            })
            .collect();
        ctx.schedule_threads("verify");
        let ok = Proof::new(t.w.proof.clone()).verify(vk(), &list).is_ok();
        ctx.log(format!("{} instances, accepted {ok}", list.len()));
        ctx.check_eq(ok, p == right, "proof-binding", "whether a proof is accepted with these instances")?;
        ctx.probe(if ok { "instances_right" } else { "instances_wrong" });
    }
    Ok(())
}

struct S;
impl Scenario for S {
    fn prepare(&self, seed: u64, thorough: bool) {
        prepare_corpus(seed, if thorough { 16 } else { 10 });
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        match ctx.pick("part", 8) {
            1 | 2 => creator(ctx),
            3 => instances(ctx),
            _ => relays(ctx),
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C02",
        scenario: Box::new(S),
        quick_runs: 420,
        thorough_runs: 12_000,
        rule: "Each run sends really proved and signed bundles through malicious relays on a faulty network, which alter any field, order, count, proof bytes, signatures or transaction, or recombine what they have seen; validators must accept exactly the originals. Or the creator alters the bundle and signs afresh, or a proof meets freely assembled instances: it must be accepted with exactly the public inputs it was made for.",
        real: &["orchard::bundle (digests, proof verification, batch)", "orchard::circuit (prover, verifier)", "halo2_proofs", "reddsa"],
        stub: &["network", "the rest of the transaction (hashed in by the simulator)"],
        assumptions: &["the proof system is sound and proofs cannot be mauled into other valid ones by means not tried", "bytes appended to a proof are the transaction format's business: its length is fixed there"],
    }
}
