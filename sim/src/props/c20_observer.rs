//! Someone who has only what is published tries to learn something from it.
use std::collections::{HashMap, HashSet};

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::builder::BundleType;
use orchard::bundle::Flags;
use orchard::keys::{OutgoingViewingKey, Scope};
use rand_core::RngCore;

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

/// One of the two worlds the observer has to tell apart: what is spent and created, each time
/// with new notes.
struct Side {
    name: &'static str,
    parties: Vec<Party>,
    /// party, scope, diversifier, value
    spends: Vec<(usize, Scope, u32, u64)>,
    outs: Vec<POut>,
}

/// Cuts `total` into `n` parts, zero among them at times.
fn partition(ctx: &mut Ctx, total: u64, n: usize) -> Vec<u64> {
    let mut left = total;
    let mut o = vec![];
    for i in 0..n {
        let x = if i + 1 == n {
            left
        } else {
            match ctx.pick("part", 3) {
                0 => left / 2,
                1 => 0,
                _ => ctx.u64("part") % (left + 1),
            }
        };
        left -= x;
        o.push(x);
    }
    o
}

fn side(ctx: &mut Ctx, name: &'static str, n: usize, balance: i64) -> Side {
    let parties: Vec<Party> = (0..2).map(|i| Party::new(ctx, &format!("{name}{i}"))).collect();
    let mut ns = ctx.pick(&format!("{name}.spends"), n + 1);
    let mut no = ctx.pick(&format!("{name}.outs"), n + 1);
    if n > 2 && ns < n && no < n {
        if ctx.pick(&format!("{name}.fill"), 2) == 0 {
            no = n
        } else {
            ns = n
        }
    }
    if balance > 0 && ns == 0 {
        ns = n;
    }
    if balance < 0 && no == 0 {
        no = n;
    }
    let through = if ns > 0 && no > 0 { ctx.u64(&format!("{name}.through")) >> 12 } else { 0 };
    let sin = if balance > 0 { balance as u64 + through } else { through };
    let sout = (sin as i128 - balance as i128) as u64;
    let spends = partition(ctx, sin, ns)
        .into_iter()
        .map(|v| (ctx.pick("side.owner", 2), SCOPES[ctx.pick("side.scope", 2)], diversifier_index(ctx), v))
        .collect();
    let outs = partition(ctx, sout, no)
        .into_iter()
        .map(|v| {
            let mut o = make_out(ctx, &parties, false);
            o.value = v;
            o
        })
        .collect();
    Side { name, parties, spends, outs }
}

fn windows(b: &[u8]) -> impl Iterator<Item = (usize, u64)> + '_ {
    b.windows(8).enumerate().map(|(i, w)| (i, u64::from_le_bytes(w.try_into().unwrap())))
}
fn telling(w: u64) -> bool {
    w.to_le_bytes().iter().collect::<HashSet<_>>().len() >= 5
}

const FIELDS: &[(&str, usize)] = &[("cv", 32), ("nf", 32), ("rk", 32), ("cmx", 32), ("epk", 32), ("enc", 580), ("out", 80)];
fn flat(a: &RAction) -> Vec<u8> {
    let mut o = vec![];
    for x in [&a.cv[..], &a.nf, &a.rk, &a.cmx, &a.epk, &a.enc, &a.out] {
        o.extend_from_slice(x);
    }
    o
}
fn place(mut at: usize) -> String {
    for (n, l) in FIELDS {
        if at < *l {
            return format!("{n}[{at}]");
        }
        at -= l;
    }
    "?".into()
}

/// Keys, trapdoors and seeds that anybody could come up with.
fn guesses(a: &RAction, anchor: &[u8; 32]) -> Vec<[u8; 32]> {
    let mut o = vec![[0; 32], [1; 32], [0xff; 32], a.cv, a.nf, a.rk, a.cmx, a.epk, *anchor];
    for i in 1..4u8 {
        let mut x = [0; 32];
        x[0] = i;
        o.push(x);
    }
    o.push(a.out[..32].try_into().unwrap());
    o.push(a.enc[..32].try_into().unwrap());
    o
}

fn guess(ctx: &mut Ctx, a: &RAction, anchor: &[u8; 32], addrs: &[[u8; 43]], nets: &[i128]) -> Res {
    let gs: Vec<Pt> = addrs.iter().map(|d| g_d(&d[..11].try_into().unwrap())).collect();
    for k in guesses(a, anchor) {
        let open = |what: &str, ctx: &mut Ctx, yes: bool| {
            ctx.check(!yes, "guessable", || format!("{what} with {}", hex::encode(k)))
        };
        let r = recover(&k, a).is_some();
        open("an output is recovered", ctx, r)?;
        open("the outgoing ciphertext opens", ctx, aead_open(&k, &a.out).is_some())?;
        open("the note ciphertext opens", ctx, aead_open(&k, &a.enc).is_some())?;
        if let Some(i) = fp(&k) {
            open("a note is decrypted", ctx, decrypt(&i, a).is_some())?;
        }
        if let (Some(t), Some(cv)) = (fq(&k), pt(&a.cv)) {
            for v in nets {
                open("a value commitment is opened", ctx, cv == value_commit(*v, &t))?;
            }
            if let Some(rk) = pt(&a.rk) {
                open("a randomized key is a known key", ctx, rk == bases().spend_auth_g * t)?;
            }
            if let Some(epk) = pt(&a.epk) {
                for g in &gs {
                    open("an ephemeral key is explained", ctx, epk == *g * t)?;
                }
            }
        }
        // Somebody's wallet made from it.
        if let Some(sk) = RSk::from_sk(k) {
            for sc in [RScope::External, RScope::Internal] {
                let yes = sk.fvk.ivk(sc).map_or(false, |i| decrypt(&i.ivk, a).is_some());
                open("a note belongs to a wallet", ctx, yes)?;
                let yes = recover(&sk.fvk.ovk(sc), a).is_some();
                open("an output is recovered by a wallet", ctx, yes)?;
            }
        }
        let e = RNote { addr: [0; 43], value: 0, rho: a.nf, rseed: k }.esk();
        for g in &gs {
            open("an ephemeral key is explained by a note seed", ctx, e.map(|e| (*g * e).to_bytes()) == Some(a.epk))?;
        }
    }
    Ok(())
}

struct S;
impl Scenario for S {
    fn prepare(&self, _seed: u64, _thorough: bool) {
        let _ = pk();
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        let n = ctx.range("n", 2, 4);
        let balance = match ctx.pick("balance", 3) {
            0 => 0i64,
            1 => (ctx.u64("balance") >> 16) as i64,
            _ => -((ctx.u64("balance") >> 16) as i64),
        };
        let sides = [side(ctx, "a", n, balance), side(ctx, "b", n, balance)];
        // Some notes of both sides are in one tree, so that everybody shares the anchor.
        let builds = 160usize.div_euclid(n) + 1;
        let ty = BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true };
        let mut tree = Sparse::new(Some(ctx.u64("filler")));
        let mut mint_rng = ctx.rng("mint");
        let mut pos = ctx.u64("pos") as u32 & 0x7fff_ffff;
        let mut minted: Vec<Vec<Vec<(usize, Scope, RNote, u32)>>> = vec![];
        for s in &sides {
            let mut all = vec![];
            for _ in 0..builds {
                let mut one = vec![];
                for (p, sc, j, v) in &s.spends {
                    let r = loop {
                        let (mut rho, mut rseed) = ([0; 64], [0; 32]);
                        mint_rng.fill_bytes(&mut rho);
                        mint_rng.fill_bytes(&mut rseed);
                        let r = RNote { addr: s.parties[*p].addr(*j, *sc).to_raw_address_bytes(), value: *v, rho: to_fp(&rho).to_repr(), rseed };
                        if note_from(&r).is_some() {
                            break r;
                        }
                    };
                    // Worthless notes need no place in it.
                    if *v > 0 {
                        tree.insert(pos, cmx_of(&note_from(&r).unwrap()));
                    }
                    one.push((*p, *sc, r, pos));
                    pos += 1;
                }
                all.push(one);
            }
            minted.push(all);
        }
        let root = tree.root();
        for s in &sides {
            ctx.log(format!("{}: {} spends, {} outputs", s.name, s.spends.len(), s.outs.len()));
        }
        ctx.state(&format!("{n}/{}/{}/{}/{}/{}", balance.signum(), sides[0].spends.len(), sides[0].outs.len(), sides[1].spends.len(), sides[1].outs.len()));

        // What must not be found in anything published.
        let mut secrets: HashMap<u64, String> = HashMap::new();
        let mut hide = |what: &str, b: &[u8]| {
            for (_, w) in windows(b) {
                if telling(w) {
                    secrets.insert(w, what.to_string());
                }
            }
        };
        let mut addrs = vec![];
        let mut nets = vec![0i128];
        for s in &sides {
            for p in &s.parties {
                hide("spending key", &p.r.sk);
                hide("spend authorizing key", &p.r.ask.to_repr());
                hide("full viewing key", &p.r.fvk.to_bytes());
                for sc in [RScope::External, RScope::Internal] {
                    hide("incoming viewing key", &p.r.fvk.ivk(sc).unwrap().to_bytes());
                    hide("outgoing viewing key", &p.r.fvk.ovk(sc));
                }
            }
            for o in &s.outs {
                let a = o.addr.to_raw_address_bytes();
                hide("recipient", &a);
                hide("value", &o.value.to_le_bytes());
                hide("memo", &memo_bytes(&o.memo));
                if let Some(k) = &o.ovk {
                    hide("outgoing viewing key", k);
                }
                addrs.push(a);
                nets.push(-(o.value as i128));
            }
            for (p, sc, j, v) in &s.spends {
                hide("spent value", &v.to_le_bytes());
                let a = s.parties[*p].addr(*j, *sc).to_raw_address_bytes();
                hide("spent address", &a);
                addrs.push(a);
                nets.push(*v as i128);
                for o in &s.outs {
                    nets.push(*v as i128 - o.value as i128);
                }
            }
        }
        nets.sort();
        nets.dedup();
        nets.truncate(8);
        addrs.sort();
        addrs.dedup();
        let mut seen: HashMap<u64, (usize, usize, usize)> = HashMap::new();
        let mut ones = [vec![0u32; 820 * 8], vec![0u32; 820 * 8]];
        let mut samples = [0u32; 2];
        let mut rng = ctx.rng("build");
        let mut sign = ctx.rng("sign");
        let custom = ctx.pick("custom", 2) == 1;
        let real = ctx.chance("real", 1, 12);
        let looks = 12;
        for b in 0..builds {
            for (si, s) in sides.iter().enumerate() {
                let spends: Vec<PSpend> = minted[si][b]
                    .iter()
                    .map(|(p, sc, r, pos)| PSpend {
                        party: *p,
                        scope: *sc,
                        note: note_from(r).unwrap(),
                        r: r.clone(),
                        pos: *pos,
                        sib: if r.value > 0 { tree.path(*pos) } else { [root; 32] },
                    })
                    .collect();
                let mut here: HashMap<u64, &str> = HashMap::new();
                for p in &spends {
                    let fvk = &s.parties[p.party].r.fvk;
                    for (what, x) in [
                        ("spent note's rho", p.r.rho),
                        ("spent note's seed", p.r.rseed),
                        ("spent note's commitment", p.r.cmx().unwrap()),
                        ("spent note's commitment", p.r.cm().unwrap().to_bytes()),
                        ("spent note's psi", p.r.psi().to_repr()),
                        ("spent note's trapdoor", p.r.rcm().to_repr()),
                        ("unhidden value", value_commit(p.r.value as i128, &Fq::ZERO).to_bytes()),
                        ("owner's key", fvk.ak),
                    ] {
                        for (_, w) in windows(&x) {
                            here.insert(w, what);
                        }
                    }
                }
                let plan = Plan { parties: s.parties.clone(), ty, anchor: root, spends, outs: s.outs.clone() };
                let Some((un, _)) = plan.build_ok(ctx, custom, &mut rng)? else { return ctx.violation("withheld", "a required bundle was withheld") };
                let acts = ractions(&un);
                // Both sides look alike in what is meant to be seen.
                ctx.check_eq(acts.len(), n, "public-effects", "number of actions")?;
                ctx.check_eq((*un.value_balance(), un.flags().to_byte(), un.anchor().to_bytes()), (balance, 3, root), "public-effects", "public effects")?;
                let mut published: Vec<Vec<u8>> = acts.iter().map(flat).collect();
                if b < looks {
                    let msg = sighash(&un, b"tx");
                    let proof = if real && b < 2 {
                        ctx.schedule_threads("prove");
                        let p = match un.clone().create_proof(pk(), &mut sign) {
                            Ok(p) => p,
                            Err(e) => return ctx.violation("unprovable", format!("{e:?}")),
                        };
                        ctx.probe("proofs_examined");
                        match p.apply_signatures(&mut sign, msg, &plan.asks()) {
                            Ok(a) => a.authorization().proof().as_ref().to_vec(),
                            Err(e) => return ctx.violation("signing-failed", format!("{e:?}")),
                        }
                    } else {
                        vec![]
                    };
                    match attach_proof(un, vec![]).apply_signatures(&mut sign, msg, &plan.asks()) {
                        Ok(a) => {
                            let w = Wire::of(&a);
                            published.extend(w.sigs.iter().map(|s| s.to_vec()));
                            published.push(w.binding.to_vec());
                        }
                        Err(e) => return ctx.violation("signing-failed", format!("{e:?}")),
                    }
                    if !proof.is_empty() {
                        published.push(proof);
                    }
                    let a = &acts[b % n];
                    if b < 4 {
                        guess(ctx, a, &root, &addrs, &nets)?;
                    }
                }
                for (i, p) in published.iter().enumerate() {
                    for (at, w) in windows(p) {
                        if let Some(what) = here.get(&w).copied().or(secrets.get(&w).map(|s| s.as_str())) {
                            return ctx.violation("in-the-open", format!("part of a {what} is published in item {i} at {}", place(at)));
                        }
                        if let Some(before) = seen.insert(w, (si * builds + b, i, at)) {
                            return ctx.violation(
                                "repeats",
                                format!("bundle {} item {i} repeats at {} what bundle {} item {} has at {}", si * builds + b, place(at), before.0, before.1, place(before.2)),
                            );
                        }
                    }
                    ctx.checks += 1;
                }
                for a in &published[..n] {
                    samples[si] += 1;
                    for (k, byte) in a.iter().enumerate() {
                        for bit in 0..8 {
                            ones[si][k * 8 + bit] += ((byte >> bit) & 1) as u32;
                        }
                    }
                }
                if b == 0 {
                    ctx.log_bytes("published", &published.concat());
                }
            }
        }
        // Statistics: no bit of any field tells one side from the other, and none is fixed.
        let (na, nb) = (samples[0] as f64, samples[1] as f64);
        for k in 0..820 * 8 {
            let (x, y) = (ones[0][k] as f64, ones[1][k] as f64);
            let p = (x + y) / (na + nb);
            let se = (p * (1.0 - p) * (1.0 / na + 1.0 / nb)).sqrt();
            let z = if se > 0.0 { (x / na - y / nb) / se } else { 0.0 };
            ctx.check(z.abs() < 7.5, "distinguishable", || format!("bit {} of {} is set in {x} of {na} against {y} of {nb} (z={z:.1})", k % 8, place(k / 8)))?;
            // The top of field elements is zero, or nearly; everything else is even.
            let at = place(k / 8);
            let top = k / 8 % 32 == 31 && (at.starts_with("nf") || at.starts_with("cmx") || at.starts_with("cv") || at.starts_with("rk") || at.starts_with("epk"));
            if !top {
                let z = (p - 0.5) / (0.25 / (na + nb)).sqrt();
                ctx.check(z.abs() < 9.0, "biased", || format!("bit {} of {at} is set in a fraction of {p:.3}", k % 8))?;
            }
        }
        let _ = (Pt::identity(), OutgoingViewingKey::from([0; 32]));
        ctx.fault("observer.battery");
        ctx.probe("battery_done");
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C20",
        scenario: Box::new(S),
        quick_runs: 64,
        thorough_runs: 4_000,
        rule: "Each run builds hundreds of bundles of two different requests with the same public effects (real or dummy spends and outputs, other owners, values, memos, keys) and gives an observer everything published, signatures and some real proofs included: no eight bytes may repeat anywhere or occur in any secret, no ciphertext, commitment or key may open with a guessable key, trapdoor or seed, and no bit of any field may tell the two requests apart.",
        real: &["orchard::builder", "orchard::note_encryption (sender side)", "orchard::value", "orchard::primitives::redpallas (signing)", "halo2_proofs prover (some runs)"],
        stub: &["note commitment tree contents", "proof system in most runs (no proof is published)"],
        assumptions: &["the battery of observers stands for all of them", "statistics over about 160 actions per request, thresholds z < 7.5 and z < 9"],
    }
}
