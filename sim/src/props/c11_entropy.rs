//! What is built, proved and signed is a function of the inputs and of the generator the
//! caller supplied, and fresh whenever that generator is.
use std::collections::BTreeMap;

use group::GroupEncoding;
use nonempty::NonEmpty;
use orchard::builder::BuildError;
use orchard::bundle::{BatchValidator, Bundle};
use orchard::circuit::VerifyingKey;
use orchard::Action;
use rand_chacha::ChaCha12Rng;

use crate::craft::*;
use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::rngs::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

/// The machine this happens on: clock, kernel entropy, thread pool.
fn machine(ctx: &mut Ctx, label: &str) {
    let s = ctx.u64(&format!("{label}.machine"));
    getrandom::sim::seed(s);
    let jump = [0i64, 1, 3_600_000_000_000, -86_400_000_000_000, 1_000_000_000][ctx.pick(&format!("{label}.clock"), 5)];
    if jump != 0 {
        ctx.fault("clock.jump");
    }
    crate::ambient::jump(jump);
    ctx.schedule_threads(label);
}

/// Building and signing, with everything random from the two generators. The proof is a stub.
fn produce(plan: &Plan, custom: bool, build: ChaCha12Rng, sign: ChaCha12Rng, order: &[usize]) -> Result<Option<Vec<u8>>, String> {
    let un = match plan.build(custom, build) {
        Ok(Some((u, meta))) => {
            let m = format!("{meta:?}");
            (u, m)
        }
        Ok(None) => return Ok(None),
        Err(e) => return Err(format!("{e:?}")),
    };
    let (un, meta) = un;
    let n = un.actions().len();
    let mut out = un.commitment().0.as_bytes().to_vec();
    out.extend_from_slice(meta.as_bytes());
    let proven = attach_proof(un, vec![9; Wire::canonical_proof_len(n)]);
    let mut rng = sign;
    let msg = sighash(&proven, b"tx");
    let mut part = proven.prepare(&mut rng, msg);
    let asks = plan.asks();
    for i in order {
        if let Some(a) = asks.get(*i) {
            part = part.sign(&mut rng, a);
        }
    }
    let auth = part.finalize().map_err(|e| format!("{e:?}"))?;
    out.extend_from_slice(&Wire::of(&auth).encode());
    Ok(Some(out))
}

fn repeatable(ctx: &mut Ctx) -> Res {
    let plan = make_plan(ctx, PlanCfg { big: 20, ..Default::default() });
    ctx.log(plan.describe());
    ctx.state(&format!("repeat/{}", plan.shape()));
    let custom = ctx.pick("custom", 2) == 1;
    let build = ctx.rng("build");
    let sign = ctx.rng("sign");
    let order = ctx.permutation("sign.order", plan.asks().len());
    machine(ctx, "first");
    let one = produce(&plan, custom, build.clone(), sign.clone(), &order);
    let drawn = getrandom::sim::drawn();
    ctx.check(drawn.0 == 0, "ambient-entropy", || format!("building and signing drew {} bytes from the system's entropy", drawn.1))?;
    if let Ok(Some(b)) = &one {
        ctx.log_bytes("bundle", b);
    }
    machine(ctx, "second");
    // What happened before on this machine makes no difference.
    if ctx.pick("history", 2) == 1 {
        let other = make_plan(ctx, PlanCfg::default());
        let r = ctx.rng("history.build");
        let _ = produce(&other, !custom, r.clone(), r, &[0, 1, 2]);
    }
    let two = produce(&plan, custom, build.clone(), sign.clone(), &order);
    ctx.check(one == two, "not-repeatable", || "the same inputs and generator gave two different bundles".into())?;
    if ctx.chance("process", 1, 3) {
        ctx.fault("process.other");
        let s = ctx.u64("process.machine");
        let got = fork_map(1, 1, |_| {
            crate::ambient::enter(s);
            crate::ambient::jump((s >> 8) as i64);
            getrandom::sim::seed(s);
            Some(match produce(&plan, custom, build.clone(), sign.clone(), &order) {
                Ok(Some(b)) => b,
                Ok(None) => vec![],
                Err(e) => e.into_bytes(),
            })
        });
        let want = match &one {
            Ok(Some(b)) => b.clone(),
            Ok(None) => vec![],
            Err(e) => e.clone().into_bytes(),
        };
        ctx.check(got[0].as_ref() == Some(&want), "not-repeatable", || "another process got another bundle from the same inputs and generator".into())?;
    }
    // Another way to hand over the same requests.
    let three = produce(&plan, !custom, build, sign, &order);
    if ctx.pick("both.ways", 2) == 0 {
        ctx.check(one == three, "not-repeatable", || "the two ways of building give different bundles from the same generator".into())?;
    }
    Ok(())
}

struct Made {
    acts: Vec<RAction>,
    /// net value per action
    net: Vec<i128>,
    /// ak per action, where it is known
    ak: Vec<Option<[u8; 32]>>,
    rseeds: Vec<[u8; 32]>,
    sigs: Vec<[u8; 64]>,
    binding: [u8; 64],
}

fn make(ctx: &mut Ctx, plan: &Plan, label: &str, rng: ChaCha12Rng, sign: ChaCha12Rng) -> Res<Option<Made>> {
    let custom = ctx.pick(&format!("{label}.custom"), 2) == 1;
    let Some((un, meta)) = plan.build_ok(ctx, custom, rng)? else { return Ok(None) };
    let acts = ractions(&un);
    let n = acts.len();
    let mut net = vec![0i128; n];
    let mut ak = vec![None; n];
    let mut rseeds = vec![];
    for (k, s) in plan.spends.iter().enumerate() {
        let Some(i) = meta.spend_action_index(k).filter(|i| *i < n) else { return ctx.violation("metadata", "spend has no action") };
        net[i] += s.r.value as i128;
        ak[i] = Some(plan.parties[s.party].r.fvk.ak);
    }
    for (k, o) in plan.outs.iter().enumerate() {
        let Some(i) = meta.output_action_index(k).filter(|i| *i < n) else { return ctx.violation("metadata", "output has no action") };
        net[i] -= o.value as i128;
        if let Some((r, _)) = decrypt(&plan.parties[o.party].r.fvk.ivk(rscope(o.scope)).unwrap().ivk, &acts[i]) {
            rseeds.push(r.rseed);
        }
    }
    let msg: [u8; 32] = [5; 32];
    let proven = attach_proof(un, vec![1]);
    let auth = match proven.apply_signatures(sign, msg, &plan.asks()) {
        Ok(a) => a,
        Err(e) => return ctx.violation("signing-failed", format!("{e:?}")),
    };
    let w = Wire::of(&auth);
    Ok(Some(Made { acts, net, ak, rseeds, sigs: w.sigs, binding: w.binding }))
}

/// Everything in all bundles made with good entropy is new.
fn fresh(ctx: &mut Ctx) -> Res {
    let plan = make_plan(ctx, PlanCfg { max_parties: 2, max_spends: 4, max_outs: 4, big: 20, ..Default::default() });
    ctx.log(plan.describe());
    ctx.state(&format!("fresh/{}", plan.shape()));
    let rounds = ctx.range("rounds", 2, 3);
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut all: Vec<(i128, Option<[u8; 32]>, RAction)> = vec![];
    // A caller may run everything off one generator.
    let one = ctx.pick("one.generator", 2) == 1;
    for r in 0..rounds {
        let (a, b) = if one { (ctx.rng("one"), ctx.rng("one")) } else { (ctx.rng("build"), ctx.rng("sign")) };
        let Some(m) = make(ctx, &plan, &format!("r{r}"), a, b)? else { return Ok(()) };
        let mut put = |ctx: &mut Ctx, k: Vec<u8>, what: String| -> Res {
            ctx.checks += 1;
            match seen.insert(k, what.clone()) {
                None => Ok(()),
                Some(before) => ctx.violation("not-fresh", format!("{what} repeats {before}")),
            }
        };
        let nf_of_real: Vec<[u8; 32]> =
            plan.spends.iter().map(|s| s.r.nullifier(&plan.parties[s.party].r.fvk.nk).unwrap()).collect();
        for (i, x) in m.acts.iter().enumerate() {
            let at = format!("of bundle {r} action {i}");
            put(ctx, x.rk.to_vec(), format!("randomized key {at}"))?;
            put(ctx, x.cv.to_vec(), format!("value commitment {at}"))?;
            put(ctx, x.cmx.to_vec(), format!("commitment {at}"))?;
            put(ctx, x.epk.to_vec(), format!("ephemeral key {at}"))?;
            put(ctx, x.enc[..52].to_vec(), format!("compact ciphertext {at}"))?;
            put(ctx, x.out.clone(), format!("outgoing ciphertext {at}"))?;
            put(ctx, x.out[..32].to_vec(), format!("outgoing ciphertext prefix {at}"))?;
            if !nf_of_real.contains(&x.nf) {
                put(ctx, x.nf.to_vec(), format!("dummy nullifier {at}"))?;
            }
            put(ctx, m.sigs[i].to_vec(), format!("spend signature {at}"))?;
            put(ctx, m.sigs[i][..32].to_vec(), format!("spend signature nonce {at}"))?;
            // x-coordinates too: a negated value is not fresh
            let mut e = x.epk;
            e[31] &= 0x7f;
            put(ctx, [&e[..], b"x"].concat(), format!("ephemeral key up to sign {at}"))?;
            // nothing is left unblinded
            let plain = value_commit(m.net[i], &Fq::from(0)).to_bytes();
            ctx.check(x.cv != plain, "not-blinded", || format!("value commitment {at} has no randomness"))?;
            if let Some(ak) = m.ak[i] {
                ctx.check(x.rk != ak, "not-blinded", || format!("randomized key {at} is the validating key itself"))?;
            }
            all.push((m.net[i], m.ak[i], x.clone()));
        }
        put(ctx, m.binding.to_vec(), format!("binding signature of bundle {r}"))?;
        put(ctx, m.binding[..32].to_vec(), format!("binding signature nonce of bundle {r}"))?;
        for s in m.rseeds {
            put(ctx, s.to_vec(), format!("note randomness in bundle {r}"))?;
        }
    }
    // Randomness shared between two actions, or related to it, shows in differences.
    for i in 0..all.len() {
        for j in 0..i {
            let (a, b) = (&all[i], &all[j]);
            let d = pt(&a.2.cv).unwrap() - pt(&b.2.cv).unwrap();
            ctx.check(d != value_commit(a.0 - b.0, &Fq::from(0)), "not-fresh", || format!("actions {i} and {j} share their value commitment randomness"))?;
            let s = pt(&a.2.cv).unwrap() + pt(&b.2.cv).unwrap();
            ctx.check(s != value_commit(a.0 + b.0, &Fq::from(0)), "not-fresh", || format!("value commitment randomness of actions {i} and {j} cancels"))?;
            if let (Some(x), Some(y)) = (a.1, b.1) {
                let (px, py) = (pt(&x).unwrap(), pt(&y).unwrap());
                let (rx, ry) = (pt(&a.2.rk).unwrap(), pt(&b.2.rk).unwrap());
                ctx.check(rx - px != ry - py && rx - px != py - ry, "not-fresh", || format!("actions {i} and {j} share their key randomizer"))?;
            }
        }
    }
    ctx.probe("fresh_compared");
    Ok(())
}

/// An entropy source that repeats itself makes one signature fit two spends.
fn repeats(ctx: &mut Ctx) -> Res {
    let p = Party::new(ctx, "p");
    let mut plan = make_plan(ctx, PlanCfg { max_parties: 1, max_spends: 0, max_outs: 2, all_types: false, ..Default::default() });
    plan.parties = vec![p.clone()];
    for o in plan.outs.iter_mut() {
        o.party = 0;
        o.addr = p.addr(1, o.scope);
    }
    let mut t = Sparse::new(None);
    let ns = ctx.range("spends", 2, 4);
    let notes: Vec<_> = (0..ns).map(|i| (i as u32, mint(ctx, &p.addr(0, orchard::keys::Scope::External), 10 + i as u64))).collect();
    for (pos, n) in &notes {
        t.insert(*pos, cmx_of(n));
    }
    plan.anchor = t.root();
    plan.spends = notes
        .iter()
        .map(|(pos, n)| PSpend { party: 0, scope: orchard::keys::Scope::External, note: *n, r: rnote(n), pos: *pos, sib: t.path(*pos) })
        .collect();
    let by_source = ctx.pick("source", 2) == 1;
    let inner = ctx.rng("build");
    let (un, meta) = if by_source {
        ctx.fault("entropy.repeats");
        let good = ctx.range("stuck.good", 20, 120);
        let period = [8, 1, 2, 4, 16, 24][ctx.pick("stuck.period", 6)];
        match plan.build(false, Stuck::new(inner, good, period)) {
            Ok(Some(x)) => x,
            // Nothing says that a bundle can be had from a broken source.
            _ => return Ok(()),
        }
    } else {
        ctx.fault("entropy.same_randomizer");
        let Some((un, meta)) = plan.build_ok(ctx, false, inner)? else { return ctx.violation("no-bundle", "nothing built") };
        // The same randomizer drawn twice: two spends of one owner end up with one key.
        let from = meta.spend_action_index(0).unwrap();
        let to = meta.spend_action_index(1 + ctx.pick("same.with", ns - 1)).unwrap();
        let acts: Vec<_> = un
            .actions()
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let src = if i == to { &un.actions()[from] } else { a };
                Action::from_parts(*a.nullifier(), src.rk().clone(), *a.cmx(), a.encrypted_note().clone(), a.cv_net().clone(), src.authorization().clone())
            })
            .collect();
        let b: Unauth = Bundle::from_parts(NonEmpty::from_vec(acts).unwrap(), *un.flags(), *un.value_balance(), *un.anchor(), un.authorization().clone());
        (b, meta)
    };
    let acts = ractions(&un);
    let slots: Vec<usize> = (0..ns).map(|k| meta.spend_action_index(k).unwrap()).collect();
    let mut groups: BTreeMap<[u8; 32], Vec<usize>> = BTreeMap::new();
    for s in &slots {
        groups.entry(acts[*s].rk).or_default().push(*s);
    }
    let dup: Vec<Vec<usize>> = groups.values().filter(|g| g.len() > 1).cloned().collect();
    if dup.is_empty() {
        ctx.probe("no_repetition_reached");
        return Ok(());
    }
    ctx.probe(if by_source { "repetition_by_source" } else { "repetition_forced" });
    let msg: [u8; 32] = ctx.bytes("msg");
    let custom = attach_proof(un, vec![]);
    let keep = custom.clone();
    let part = custom.prepare(ctx.rng("prepare"), msg);
    // The owner's signature as a co-signer makes it: from a bundle signed with the real key.
    let signed = match keep.apply_signatures(ctx.rng("cosign"), msg, std::slice::from_ref(&p.ask)) {
        Ok(a) => a,
        Err(e) => return ctx.violation("signing-failed", format!("{e:?}")),
    };
    let sigs: Vec<Sig> = signed.actions().iter().map(|a| a.authorization().clone()).collect();
    let before = ractions(&part);
    let g = &dup[0];
    let s = sigs[g[ctx.pick("which", g.len())]].clone();
    let at = ctx.pick("dup.at", 3);
    let alone: Vec<usize> = groups.values().filter(|g| g.len() == 1).map(|g| g[0]).collect();
    let mut list = vec![];
    if at > 0 {
        list.extend(alone.iter().take(at).map(|i| sigs[*i].clone()));
    }
    list.push(s);
    match part.append_signatures(&list) {
        Err(BuildError::DuplicateSignature) => {
            ctx.probe("duplicate_reported");
            ctx.checks += 1;
        }
        Err(e) => return ctx.violation("duplicate-misreported", format!("a signature that fits {} unsigned spends: {e:?}", g.len())),
        Ok(b) => {
            let _ = before;
            let f = b.finalize();
            return ctx.violation("duplicate-applied", format!("a signature that fits {} unsigned spends was applied (finalizes: {})", g.len(), f.is_ok()));
        }
    }
    Ok(())
}

/// A real proof made on another machine with another schedule is the same proof.
fn proof(ctx: &mut Ctx) -> Res {
    let c = corpus();
    if c.is_empty() {
        return ctx.violation("corpus", "no bundle could be proved");
    }
    let e = &c[ctx.pick("entry", c.len())];
    ctx.log(format!("prove {}", e.name));
    ctx.state(&format!("proof/{}", e.name));
    machine(ctx, "prove");
    let drawn0 = getrandom::sim::drawn();
    let p = match e.un.clone().create_proof(pk(), e.prover_rng()) {
        Ok(p) => p,
        Err(x) => return ctx.violation("not-repeatable", format!("proved once, now fails: {x:?}")),
    };
    let st = maybe_rayon::sim::stats();
    ctx.log(format!("schedule {:x} tasks {}", st.order_hash, st.tasks));
    let drawn = getrandom::sim::drawn();
    ctx.check(drawn == drawn0, "ambient-entropy", || format!("proving drew {} bytes from the system's entropy", drawn.1 - drawn0.1))?;
    let a = match p.apply_signatures(ctx.rng("sign"), [1; 32], &e.plan.asks()) {
        Ok(a) => a,
        Err(x) => return ctx.violation("signing-failed", format!("{x:?}")),
    };
    let bytes = a.authorization().proof().as_ref().to_vec();
    ctx.log_bytes("proof", &bytes);
    ctx.check(bytes == e.proof, "not-repeatable", || "the same inputs and generator gave another proof".into())?;
    ctx.probe("proof_repeated");
    Ok(())
}

/// Another generator gives another proof.
fn proof_fresh(ctx: &mut Ctx) -> Res {
    let c = corpus();
    if c.is_empty() {
        return ctx.violation("corpus", "no bundle could be proved");
    }
    let e = c.iter().min_by_key(|e| e.un.actions().len()).unwrap();
    machine(ctx, "prove");
    let p = match e.un.clone().create_proof(pk(), ctx.rng("prove")) {
        Ok(p) => p,
        Err(x) => return ctx.violation("not-repeatable", format!("proved once, now fails: {x:?}")),
    };
    let a = p.apply_signatures(ctx.rng("sign"), [1; 32], &e.plan.asks()).expect("sign");
    let bytes = a.authorization().proof().as_ref();
    // Points and scalars of the proof that are blinded must all differ.
    let same = bytes.chunks(32).zip(e.proof.chunks(32)).filter(|(a, b)| a == b).count();
    ctx.check(same == 0, "not-fresh", || format!("{same} elements of two proofs with different generators are equal"))?;
    ctx.probe("proof_fresh");
    Ok(())
}

/// Verdicts do not depend on the validator's randomness.
fn verdicts(ctx: &mut Ctx) -> Res {
    let c = corpus();
    if c.is_empty() {
        return ctx.violation("corpus", "no bundle could be proved");
    }
    let e = &c[ctx.pick("entry", c.len())];
    let msg = sighash(&e.un, b"v");
    let a = match e.proven().apply_signatures(ctx.rng("sign"), msg, &e.plan.asks()) {
        Ok(a) => a,
        Err(x) => return ctx.violation("signing-failed", format!("{x:?}")),
    };
    let mut w = Wire::of(&a);
    let bad = ctx.pick("bad", 4);
    match bad {
        1 => w.binding[40] ^= 1,
        2 => w.sigs[0][40] ^= 1,
        3 => w.proof[100] ^= 1,
        _ => {}
    }
    let Some(b) = w.parse() else { return ctx.violation("parse", "does not parse") };
    for k in 0..3 {
        machine(ctx, &format!("validate{k}"));
        let mut v = BatchValidator::new();
        v.add_bundle(&b, msg);
        let ok = v.validate(vk(), ctx.rng("validate"));
        ctx.check_eq(ok, bad == 0, "verdict", &format!("batch verdict {k} with its own randomness (damage {bad})"))?;
        ctx.check_eq(node_accepts(&b, &msg), bad == 0, "verdict", "single verdict")?;
    }
    ctx.probe("verdicts_compared");
    Ok(())
}

/// A verifying key made elsewhere is the same key, whatever its machine and schedule.
fn keys(ctx: &mut Ctx) -> Res {
    let c = corpus();
    if c.is_empty() {
        return ctx.violation("corpus", "no bundle could be proved");
    }
    let e = &c[ctx.pick("entry", c.len())];
    let msg = sighash(&e.un, b"k");
    let a = match e.proven().apply_signatures(ctx.rng("sign"), msg, &e.plan.asks()) {
        Ok(a) => a,
        Err(x) => return ctx.violation("signing-failed", format!("{x:?}")),
    };
    machine(ctx, "keygen");
    let drawn0 = getrandom::sim::drawn();
    let here = VerifyingKey::build();
    let st = maybe_rayon::sim::stats();
    ctx.log(format!("schedule {:x} tasks {}", st.order_hash, st.tasks));
    ctx.check(getrandom::sim::drawn() == drawn0, "ambient-entropy", || "making a verifying key drew from the system's entropy".into())?;
    let same = format!("{here:?}") == format!("{:?}", vk());
    ctx.check(same, "not-repeatable", || "two machines make different verifying keys".into())?;
    ctx.check(a.verify_proof(&here).is_ok(), "verdict", || "a proof is not accepted with another machine's verifying key".into())?;
    ctx.probe("keys_compared");
    Ok(())
}

struct S;
impl Scenario for S {
    fn prepare(&self, seed: u64, thorough: bool) {
        prepare_corpus(seed, if thorough { 12 } else { 5 });
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        match ctx.pick("part", 48) {
            0 => keys(ctx),
            1 => proof(ctx),
            2 => proof_fresh(ctx),
            3 => verdicts(ctx),
            4..=16 => repeats(ctx),
            17..=31 => fresh(ctx),
            _ => repeatable(ctx),
        }
    }
}

pub fn spec() -> Spec {
    let _ = parses;
    Spec {
        id: "C11",
        scenario: Box::new(S),
        quick_runs: 900,
        thorough_runs: 12_000,
        rule: "Each run either produces the same bundle twice or three times on simulated machines that differ in system entropy, clock, thread schedule, history and process (some with the real prover) and compares bytes, or makes the verifying key again on another machine, or compares everything random in bundles made from fresh entropy, or has an entropy source repeat itself and checks that an ambiguous external signature is refused.",
        real: &["orchard::builder", "orchard::circuit (prover, verifier)", "halo2_proofs", "reddsa"],
        stub: &["system entropy", "clock", "thread pool", "proof in runs not about proofs"],
        assumptions: &["halo2_proofs' BatchVerifier draws its random weights from the system by design; only verdicts are required not to depend on it"],
    }
}
