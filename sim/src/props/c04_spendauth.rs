//! Who can authorize a spend: a coordinator collects signatures from remote signers.
use std::collections::BTreeSet;

use ff::PrimeField;
use orchard::builder::{BuildError, InProgress, MaybeSigned, PartiallyAuthorized, Unproven};
use orchard::bundle::Bundle;
use orchard::Proof;

use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::rngs::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

type UnprovenPartial = Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>;

/// A bundle being signed, before or after its proof was made.
enum Work {
    Unproven(UnprovenPartial),
    Proven(Partial),
}
impl Work {
    fn filled(&self) -> Vec<Option<[u8; 64]>> {
        fn f(m: &MaybeSigned) -> Option<[u8; 64]> {
            match m {
                MaybeSigned::Signature(s) => Some(<[u8; 64]>::from(s)),
                _ => None,
            }
        }
        match self {
            Work::Unproven(b) => b.actions().iter().map(|a| f(a.authorization())).collect(),
            Work::Proven(b) => b.actions().iter().map(|a| f(a.authorization())).collect(),
        }
    }
    fn append(self, s: &[Sig]) -> Result<Work, BuildError> {
        Ok(match self {
            Work::Unproven(b) => Work::Unproven(b.append_signatures(s)?),
            Work::Proven(b) => Work::Proven(b.append_signatures(s)?),
        })
    }
    fn sign(self, rng: rand_chacha::ChaCha12Rng, ask: &orchard::keys::SpendAuthorizingKey) -> Work {
        match self {
            Work::Unproven(b) => Work::Unproven(b.sign(rng, ask)),
            Work::Proven(b) => Work::Proven(b.sign(rng, ask)),
        }
    }
    fn proven(self, proof: &[u8]) -> Partial {
        match self {
            Work::Proven(b) => b,
            Work::Unproven(b) => b.map_authorization(&mut (), |_, _, a| a, |_, p| p.sim_with_proof(Proof::new(proof.to_vec()))),
        }
    }
}

struct Slot {
    rk: [u8; 32],
    /// None for a dummy.
    owner: Option<usize>,
    signed: bool,
}

struct Coord {
    // durable
    un: Unauth,
    proof: Vec<u8>,
    rest: Vec<u8>,
    stored: Vec<[u8; 64]>,
    local: BTreeSet<usize>,
    // volatile
    work: Option<Work>,
    // the model
    slots: Vec<Slot>,
    parties: Vec<Party>,
}

impl Coord {
    fn msg(&self) -> [u8; 32] {
        sighash(&self.un, &self.rest)
    }
    /// What adding this signature must do: indices of unsigned slots it is valid for.
    fn fits(&self, sig: &[u8; 64]) -> Vec<usize> {
        let m = self.msg();
        (0..self.slots.len()).filter(|i| !self.slots[*i].signed && spend_sig_ok(&self.slots[*i].rk, &m, sig)).collect()
    }
    fn prepare(&mut self, ctx: &mut Ctx) {
        let m = self.msg();
        let rng = ctx.rng("prepare");
        self.work = Some(if ctx.pick("prove.first", 2) == 0 {
            Work::Proven(attach_proof(self.un.clone(), self.proof.clone()).prepare(rng, m))
        } else {
            Work::Unproven(self.un.clone().prepare(rng, m))
        });
        for s in &mut self.slots {
            s.signed = s.owner.is_none();
        }
    }
    fn compare(&self, ctx: &mut Ctx) -> Res {
        let m = self.msg();
        let f = self.work.as_ref().unwrap().filled();
        for (i, (got, s)) in f.iter().zip(&self.slots).enumerate() {
            ctx.check_eq(got.is_some(), s.signed, "slot-state", &format!("whether slot {i} (owner {:?}) is signed", s.owner))?;
            if let Some(sig) = got {
                ctx.check(spend_sig_ok(&s.rk, &m, sig), "slot-signature", || format!("slot {i} holds a signature that is not valid for it"))?;
            }
        }
        Ok(())
    }
    /// Rebuilds the volatile state from what is stored.
    fn restore(&mut self, ctx: &mut Ctx) -> Res {
        self.prepare(ctx);
        self.compare(ctx)?;
        for s in self.stored.clone() {
            let fit = self.fits(&s);
            let w = self.work.take().unwrap();
            match w.append(&[Sig::from(s)]) {
                Ok(w) => {
                    self.work = Some(w);
                    self.slots[fit[0]].signed = true;
                }
                Err(e) => return ctx.violation("stored-signature-refused", format!("a signature accepted before a restart is refused now: {e:?}")),
            }
        }
        for p in self.local.clone() {
            self.sign_local(ctx, p)?;
        }
        self.compare(ctx)
    }
    fn sign_local(&mut self, ctx: &mut Ctx, p: usize) -> Res {
        let rng = ctx.rng("local.sign");
        let w = self.work.take().unwrap();
        self.work = Some(w.sign(rng, &self.parties[p].ask));
        for s in &mut self.slots {
            if s.owner == Some(p) {
                s.signed = true;
            }
        }
        self.compare(ctx)
    }
    fn add(&mut self, ctx: &mut Ctx, sigs: &[[u8; 64]]) -> Res {
        // the model's verdict, one signature at a time
        let before: Vec<bool> = self.slots.iter().map(|s| s.signed).collect();
        let mut want: Result<(), &str> = Ok(());
        for s in sigs {
            let fit = self.fits(s);
            match fit.len() {
                0 => want = Err("invalid"),
                1 => self.slots[fit[0]].signed = true,
                _ => want = Err("duplicate"),
            }
            if want.is_err() {
                break;
            }
        }
        let w = self.work.take().unwrap();
        let parsed: Vec<Sig> = sigs.iter().map(|s| Sig::from(*s)).collect();
        let got = w.append(&parsed);
        let verdict = match &got {
            Ok(_) => Ok(()),
            Err(BuildError::InvalidExternalSignature) => Err("invalid"),
            Err(BuildError::DuplicateSignature) => Err("duplicate"),
            Err(_) => Err("other"),
        };
        ctx.log(format!("add {} signatures: {verdict:?}", sigs.len()));
        ctx.state(&format!("{verdict:?}"));
        ctx.probe(&format!("append_{}", verdict.err().unwrap_or("ok")));
        ctx.check_eq(verdict, want, "append-verdict", "outcome of adding external signatures")?;
        match got {
            Ok(w) => {
                self.work = Some(w);
                self.stored.extend_from_slice(sigs);
                self.compare(ctx)
            }
            Err(_) => {
                // The failed attempt consumed the bundle: start again from what is stored.
                for (s, b) in self.slots.iter_mut().zip(before) {
                    s.signed = b;
                }
                self.restore(ctx)
            }
        }
    }
    fn complete(&self) -> bool {
        self.slots.iter().all(|s| s.signed)
    }
    fn try_finalize(&mut self, ctx: &mut Ctx) -> Res<bool> {
        self.compare(ctx)?;
        let want = self.complete();
        let w = self.work.take().unwrap();
        let r = w.proven(&self.proof.clone()).finalize();
        ctx.log(format!("finalize -> {}", r.is_ok()));
        ctx.state(if want { "F" } else { "f" });
        ctx.check_eq(r.is_ok(), want, "finalize", "whether the bundle becomes authorized")?;
        match r {
            Ok(a) => {
                ctx.probe("finalized");
                let m = self.msg();
                ctx.check(signatures_ok(&a, &m), "authorized-invalid", || "an authorized bundle's signatures do not verify".into())?;
                let w = Wire::of(&a);
                ctx.check(w.ref_sigs_ok(&m), "authorized-invalid", || "the reference refuses an authorized bundle's signatures".into())?;
                let other = sighash_of(&w.ref_txid(), b"another transaction");
                ctx.check(!a.actions().iter().any(|x| x.rk().verify(&other, x.authorization()).is_ok()), "wrong-transaction", || "a spend signature is valid for another transaction".into())?;
            }
            Err(e) => {
                ctx.probe("finalize_refused");
                ctx.check(matches!(e, BuildError::MissingSignatures), "finalize-error", || format!("{e:?}"))?;
            }
        }
        self.restore(ctx)?;
        Ok(want)
    }
}

/// Signatures a signer makes for its own spends over `msg`.
fn remote_sigs(ctx: &mut Ctx, un: &Unauth, p: &Party, mine: &[usize], msg: [u8; 32]) -> Vec<(usize, [u8; 64])> {
    let rng = ctx.rng("remote.prepare");
    let rng2 = ctx.rng("remote.sign");
    let b = un.clone().prepare(rng, msg).sign(rng2, &p.ask);
    b.actions()
        .iter()
        .enumerate()
        .filter(|(i, _)| mine.contains(i))
        .filter_map(|(i, a)| match a.authorization() {
            MaybeSigned::Signature(s) => Some((i, <[u8; 64]>::from(s))),
            _ => None,
        })
        .collect()
}

#[derive(Clone)]
enum Msg {
    Ask(usize),
    Request(usize, [u8; 32]),
    Sigs(Vec<[u8; 64]>),
    Local(usize),
    Change,
    Crash,
    Finalize,
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let mut plan = make_plan(ctx, PlanCfg { max_spends: 4, max_outs: 2, all_types: false, big: 24, ..Default::default() });
        // Some more weight on several notes of one owner.
        if ctx.pick("few.owners", 3) == 1 {
            let keep = plan.parties.len().min(1);
            plan.spends.retain(|s| s.party < keep.max(1));
        }
        ctx.log(plan.describe());
        ctx.state(&plan.shape());
        let custom = ctx.pick("custom", 2) == 1;
        let rng = ctx.rng("build");
        let stuck = ctx.chance("entropy.stuck", 1, 3);
        let built = if stuck {
            ctx.fault("entropy.stuck");
            let good = [0usize, 40, 400, 1200][ctx.pick("entropy.good", 4)];
            let period = [4usize, 1, 2, 12, 24, 6][ctx.pick("entropy.period", 6)];
            plan.build_ok(ctx, custom, Stuck::new(rng, good, period))?
        } else {
            plan.build_ok(ctx, custom, rng)?
        };
        let Some((un, meta)) = built else {
            ctx.probe("no_bundle");
            return Ok(());
        };
        let acts = ractions(&un);
        let mut slots: Vec<Slot> = acts.iter().map(|a| Slot { rk: a.rk, owner: None, signed: false }).collect();
        for (k, s) in plan.spends.iter().enumerate() {
            let at = find_spend(&acts, &plan.parties, s);
            ctx.check(at.len() == 1 && meta.spend_action_index(k) == Some(at[0]), "spend-location", || "requested spend not where the metadata says".into())?;
            slots[at[0]].owner = Some(s.party);
        }
        let rks: BTreeSet<_> = slots.iter().filter(|s| s.owner.is_some()).map(|s| s.rk).collect();
        let repeated = rks.len() < plan.spends.len();
        if repeated {
            ctx.probe("repeated_randomizer");
        }
        let mut ideal = Ideal::default();
        let proof = {
            let p = ideal.prove(ctx, un.clone());
            let rng = ctx.rng("x");
            let m = sighash(&p, b"");
            let a = p.apply_signatures(rng, m, &plan.asks());
            match a {
                Ok(a) => {
                    ctx.check(signatures_ok(&a, &m), "one-step", || "signatures applied in one step do not verify".into())?;
                    a.authorization().proof().as_ref().to_vec()
                }
                Err(e) => return ctx.violation("one-step", format!("the owners' keys did not authorize the bundle: {e:?}")),
            }
        };
        // All keys but one are never enough; other people's keys add nothing.
        let owners: Vec<usize> = plan.spends.iter().map(|s| s.party).collect::<BTreeSet<_>>().into_iter().collect();
        if !owners.is_empty() {
            let skip = owners[ctx.pick("one.skip", owners.len())];
            let stranger = Party::new(ctx, "stranger");
            let keys: Vec<_> = owners.iter().filter(|o| **o != skip).map(|o| plan.parties[*o].ask.clone()).chain([stranger.ask.clone()]).collect();
            let rng = ctx.rng("x");
            let m = sighash(&un, b"");
            let r = attach_proof(un.clone(), proof.clone()).apply_signatures(rng, m, &keys);
            ctx.check(r.is_err(), "foreign-key-authorized", || "authorized without one of the owners".into())?;
        }

        let parties = plan.parties.clone();
        let n = parties.len();
        let mut c = Coord { un, proof, rest: b"tx0".to_vec(), stored: vec![], local: Default::default(), work: None, slots, parties };
        c.prepare(ctx);
        c.compare(ctx)?;

        let coord = n;
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        for i in 0..n {
            net.timer(ctx, coord, i as u64, Msg::Ask(i));
        }
        for k in 0..ctx.pick("n.events", 8) {
            let t = ctx.range("event.at", 0, 60) as u64 * 50_000 + k as u64;
            let m = match ctx.pick("event", 6) {
                0 => Msg::Finalize,
                1 => Msg::Ask(ctx.pick("event.party", n)),
                2 => Msg::Crash,
                3 => Msg::Change,
                4 => Msg::Local(ctx.pick("event.party", n)),
                _ => {
                    let s = ctx.pick("event.cut", n);
                    net.isolate(ctx, s);
                    Msg::Ask(s)
                }
            };
            net.timer(ctx, coord, t, m);
        }
        // old signatures by key: what a stale or byzantine signer may send
        let mut old: Vec<[u8; 64]> = vec![];
        let mut steps = 0;
        let mut calm_rounds = 0;
        loop {
            let Some((_, _, m)) = net.next(ctx) else {
                // Everything quiet: faults stop, missing signers are asked again.
                net.quiesce();
                if c.try_finalize(ctx)? {
                    break;
                }
                calm_rounds += 1;
                ctx.check(calm_rounds <= 3, "no-progress", || "all signers answered and the bundle is still not authorized".into())?;
                for i in 0..n {
                    if c.slots.iter().any(|s| s.owner == Some(i) && !s.signed) {
                        // External signatures cannot help where the randomizer repeated.
                        let same = c.slots.iter().filter(|s| s.owner == Some(i)).map(|s| s.rk).collect::<BTreeSet<_>>().len();
                        let have = c.slots.iter().filter(|s| s.owner == Some(i)).count();
                        let at = ctx.now_us;
                        let _ = at;
                        net.timer(ctx, coord, 1, if same < have { Msg::Local(i) } else { Msg::Ask(i) });
                    }
                }
                continue;
            };
            steps += 1;
            if steps > 200 {
                net.quiesce();
            }
            match m {
                Msg::Ask(i) => {
                    let m = c.msg();
                    net.send(ctx, coord, i, Msg::Request(i, m));
                }
                Msg::Request(i, m) => {
                    let mine: Vec<usize> = (0..c.slots.len()).filter(|k| c.slots[*k].owner == Some(i)).collect();
                    let p = c.parties[i].clone();
                    let mut sigs: Vec<[u8; 64]> = remote_sigs(ctx, &c.un, &p, &mine, m).into_iter().map(|s| s.1).collect();
                    ctx.check_eq(sigs.len(), mine.len(), "signer-slots", "signatures a signer makes")?;
                    old.extend_from_slice(&sigs);
                    if !net.calm && ctx.chance("signer.faulty", 1, 3) {
                        match ctx.pick("signer.fault", 7) {
                            0 if !sigs.is_empty() => {
                                let k = ctx.pick("signer.which", sigs.len());
                                sigs[k][ctx.pick("signer.byte", 64)] ^= 1 << ctx.pick("signer.bit", 8);
                                ctx.fault("signer.corrupt");
                            }
                            1 => {
                                // the right keys, another transaction
                                let m2: [u8; 32] = ctx.bytes("signer.othertx");
                                sigs = remote_sigs(ctx, &c.un, &p, &mine, m2).into_iter().map(|s| s.1).collect();
                                ctx.fault("signer.wrong_tx");
                            }
                            2 => {
                                // right key, randomizer of its own choosing
                                let alpha = [Fq::from(0), to_fq(&ctx.bytes::<64>("signer.alpha"))][ctx.pick("signer.zero", 2)];
                                let rng = ctx.rng("signer");
                                sigs = vec![<[u8; 64]>::from(&p.ask.randomize(&alpha).sign(rng, &m))];
                                ctx.fault("signer.wrong_randomizer");
                            }
                            3 => {
                                sigs = vec![ctx.bytes::<64>("signer.random")];
                                ctx.fault("signer.garbage");
                            }
                            4 if !old.is_empty() => {
                                sigs.push(old[ctx.pick("signer.old", old.len())]);
                                ctx.fault("signer.replay");
                            }
                            5 if !sigs.is_empty() => {
                                sigs.push(sigs[0]);
                                ctx.fault("signer.repeats");
                            }
                            _ => {
                                // non-canonical scalar
                                if let Some(s) = sigs.first_mut() {
                                    let v = fq(s[32..].try_into().unwrap());
                                    if v.is_some() {
                                        add_modulus(s);
                                        ctx.fault("signer.noncanonical");
                                    }
                                }
                                let _ = Fq::from(0).to_repr();
                            }
                        }
                    }
                    // Once faults stop, one by one: a list is refused as a whole when one of
                    // its signatures fits no unsigned spend any more.
                    if ctx.pick("signer.together", 2) == 0 || net.calm {
                        for s in sigs {
                            net.send(ctx, i, coord, Msg::Sigs(vec![s]));
                        }
                    } else {
                        net.send(ctx, i, coord, Msg::Sigs(sigs));
                    }
                }
                Msg::Sigs(s) => c.add(ctx, &s)?,
                Msg::Local(i) => {
                    ctx.log(format!("local key {i}"));
                    c.sign_local(ctx, i)?;
                    c.local.insert(i);
                }
                Msg::Change => {
                    ctx.fault("tx.changed");
                    ctx.log("transaction changed");
                    c.rest.push(b'!');
                    c.stored.clear();
                    c.local.clear();
                    c.restore(ctx)?;
                }
                Msg::Crash => {
                    ctx.fault("crash.restart");
                    ctx.log("coordinator restarts");
                    c.work = None;
                    // a stored local signature means the key is there: it signs again
                    c.restore(ctx)?;
                }
                Msg::Finalize => {
                    c.try_finalize(ctx)?;
                }
            }
        }
        Ok(())
    }
}

/// s + q in the scalar half, when it fits: the same residue, not canonical.
fn add_modulus(s: &mut [u8; 64]) {
    // q - 1 = -1
    let m1 = (-Fq::from(1)).to_repr();
    let mut carry = 1u16;
    for i in 0..32 {
        let v = s[32 + i] as u16 + m1[i] as u16 + carry;
        s[32 + i] = v as u8;
        carry = v >> 8;
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C04",
        scenario: Box::new(S),
        quick_runs: 2_000,
        thorough_runs: 100_000,
        rule: "Each run has a coordinator collect signatures for one bundle from its owners over a faulty network with byzantine, stale and replayed signatures, local signing, changed transactions, crashes and repeating entropy; every slot and every verdict is compared with a model that knows which signature is valid where.",
        real: &["orchard::builder (prepare, sign, append_signatures, finalize, apply_signatures)", "redpallas", "orchard::keys"],
        stub: &["proof system (ideal functionality)", "network, coordinator storage"],
        assumptions: &["reddsa as the reference verifier of single signatures"],
    }
}
