//! Whatever bytes arrive: a verdict, never a panic, an abort or an endless loop.
//!
//! Panics are the runner's business: an unwinding run is a violation of its own, as is a run
//! that dies of a signal or does not finish. What this file decides is what to feed to which
//! operation, and that verdicts are the same when asked again.
use ff::{Field, PrimeField};
use incrementalmerkletree::frontier::{CommitmentTree, Frontier};
use incrementalmerkletree::witness::IncrementalWitness;
use incrementalmerkletree::Position;
use orchard::builder::{bundle as build_bundle, Builder, BundleType, OutputInfo, SpendInfo};
use orchard::bundle::{BatchValidator, Flags};
use orchard::circuit::Instance;
use orchard::keys::{
    Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey, Scope, SpendAuthorizingKey, SpendValidatingKey,
    SpendingKey,
};
use orchard::note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho};
use orchard::note_encryption::{CompactAction, OrchardDomain};
use orchard::primitives::redpallas::{self, Binding, SpendAuth};
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::value::{NoteValue, ValueCommitTrapdoor, ValueCommitment};
use orchard::{Address, Anchor, Note};
use zcash_note_encryption::{Domain, EphemeralKeyBytes};

use crate::craft::*;
use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::rngs::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;
use crate::zk::*;

/// 32 bytes as a hostile peer chooses them. Half of them are some valid encoding.
fn evil32(ctx: &mut Ctx) -> [u8; 32] {
    match ctx.pick("evil", 14) {
        0 => [0; 32],
        1 => {
            let mut x = [0; 32];
            x[0] = 1 + ctx.pick("evil.small", 3) as u8;
            x
        }
        2 => [0xff; 32],
        3 => (-Fp::ONE).to_repr(),
        4 => {
            let mut x = (-Fp::ONE).to_repr();
            x[0] = x[0].wrapping_add(1 + ctx.pick("evil.over", 3) as u8);
            x
        }
        5 => (-Fq::ONE).to_repr(),
        6 => ctx.bytes("evil.random"),
        7 => {
            let mut x = [0; 32];
            x[31] = 0x80;
            x
        }
        8 => canonical_fp(ctx, "evil.fp"),
        9 => {
            let mut p = random_point(ctx, "evil.pt");
            p[31] ^= 0x80;
            p
        }
        10 => {
            let p = random_point(ctx, "evil.pt");
            noncanonical_pt(&p).unwrap_or(p)
        }
        11 => {
            // -2: a square root corner of the curve equation
            (-Fp::from(2)).to_repr()
        }
        _ => random_point(ctx, "evil.pt"),
    }
}
fn evil_bytes(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let s = ctx.u64("evil.seed");
    match ctx.pick("evil.fill", 4) {
        0 => keyed(s, "evil", n),
        1 => vec![0; n],
        2 => vec![0xff; n],
        _ => {
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(&evil32(ctx));
                if v.len() > 2000 {
                    v.extend(keyed(s, "rest", n));
                }
            }
            v.truncate(n);
            v
        }
    }
}
fn evil_point(ctx: &mut Ctx) -> [u8; 32] {
    for _ in 0..6 {
        let x = evil32(ctx);
        if pt(&x).is_some() {
            return x;
        }
    }
    [0; 32]
}
fn evil_fp(ctx: &mut Ctx) -> [u8; 32] {
    for _ in 0..6 {
        let x = evil32(ctx);
        if fp(&x).is_some() {
            return x;
        }
    }
    [0; 32]
}
fn evil_balance(ctx: &mut Ctx) -> i64 {
    match ctx.pick("evil.balance", 7) {
        0 => 0,
        1 => i64::MIN,
        2 => i64::MAX,
        3 => -1,
        4 => i64::MIN + 1,
        5 => 1,
        _ => ctx.u64("evil.balance") as i64,
    }
}

fn evil_proof(ctx: &mut Ctx, honest: &[u8]) -> Vec<u8> {
    let n = honest.len();
    let mut p = honest.to_vec();
    match ctx.pick("evil.proof", 10) {
        0 => {}
        1 => p.clear(),
        2 => p.truncate(ctx.pick("evil.cut", n + 1)),
        3 => p.truncate(ctx.pick("evil.cut32", n / 32 + 1) * 32),
        4 => {
            let k = ctx.pick("evil.len", 9000);
            p = evil_bytes(ctx, k);
        }
        5 => {
            let at = ctx.pick("evil.at", n / 32) * 32;
            let x = evil32(ctx);
            p[at..at + 32].copy_from_slice(&x);
        }
        6 => p.extend(evil_bytes(ctx, 32)),
        7 => {
            for k in 0..ctx.range("evil.n", 1, 6) {
                let at = ctx.pick(&format!("evil.at{k}"), n / 32) * 32;
                let x = evil32(ctx);
                p[at..at + 32].copy_from_slice(&x);
            }
        }
        8 => {
            // the opening argument's last scalars and points
            let back = ctx.range("evil.back", 1, 40).min(n / 32);
            let at = n - back * 32;
            let x = evil32(ctx);
            p[at..at + 32].copy_from_slice(&x);
        }
        _ => {
            let v = evil_point(ctx);
            for c in p.chunks_mut(32) {
                if c.len() == 32 {
                    c.copy_from_slice(&v);
                }
            }
        }
    }
    p
}

/// A bundle as a hostile peer sends it. Not necessarily one that parses.
fn evil_wire(ctx: &mut Ctx, keys: &Party) -> Wire {
    let c = corpus();
    let honest = if c.is_empty() || ctx.pick("base", 4) == 1 {
        None
    } else {
        let e = &c[ctx.pick("entry", c.len())];
        let msg = sighash(&e.un, b"hostile");
        e.proven().apply_signatures(ctx.rng("sign"), msg, &e.plan.asks()).ok().map(|a| Wire::of(&a))
    };
    let mut w = honest.unwrap_or_else(|| {
        let n = ctx.range("n.actions", 1, if ctx.thorough { 12 } else { 5 });
        Wire {
            actions: (0..n)
                .map(|_| match ctx.pick("action", 3) {
                    // Well encrypted for this wallet, but not what it should be inside.
                    0 => craft(ctx, std::slice::from_ref(keys)).a,
                    _ => RAction {
                        cv: evil_point(ctx),
                        nf: evil_fp(ctx),
                        rk: evil_point(ctx),
                        cmx: evil_fp(ctx),
                        epk: evil32(ctx),
                        enc: evil_bytes(ctx, 580),
                        out: evil_bytes(ctx, 80),
                    },
                })
                .collect(),
            flags: ctx.pick("flags", 4) as u8,
            balance: evil_balance(ctx),
            anchor: evil_fp(ctx),
            proof: keyed(ctx.u64("proof"), "proof", Wire::canonical_proof_len(n)),
            sigs: (0..n).map(|_| ctx.bytes("sig")).collect(),
            binding: ctx.bytes("binding"),
        }
    });
    for _ in 0..ctx.pick("n.edits", 5) {
        let i = ctx.pick("edit.action", w.actions.len());
        let name = match ctx.pick("edit", 16) {
            0 => {
                w.actions[i].rk = evil_point(ctx);
                "rk"
            }
            1 => {
                w.actions[i].rk = [0; 32];
                "rk-identity"
            }
            2 => {
                w.actions[i].cv = evil_point(ctx);
                "cv"
            }
            3 => {
                w.actions[i].cv = [0; 32];
                "cv-identity"
            }
            4 => {
                w.actions[i].nf = evil_fp(ctx);
                "nf"
            }
            5 => {
                w.actions[i].cmx = evil_fp(ctx);
                "cmx"
            }
            6 => {
                w.actions[i].epk = evil32(ctx);
                "epk"
            }
            7 => {
                w.actions[i].enc = evil_bytes(ctx, 580);
                "enc"
            }
            8 => {
                w.actions[i].out = evil_bytes(ctx, 80);
                "out"
            }
            9 => {
                w.flags = ctx.pick("flags", 4) as u8;
                "flags"
            }
            10 => {
                w.balance = evil_balance(ctx);
                "balance"
            }
            11 => {
                w.anchor = evil_fp(ctx);
                "anchor"
            }
            12 => {
                let h = w.proof.clone();
                w.proof = if h.len() >= 64 { evil_proof(ctx, &h) } else { vec![] };
                "proof"
            }
            13 => {
                let half = ctx.pick("edit.half", 3);
                let (x, y) = (evil32(ctx), evil32(ctx));
                if half != 1 {
                    w.sigs[i][..32].copy_from_slice(&x);
                }
                if half != 0 {
                    w.sigs[i][32..].copy_from_slice(&y);
                }
                "sig"
            }
            14 => {
                let (x, y) = (evil32(ctx), evil32(ctx));
                w.binding[..32].copy_from_slice(&x);
                w.binding[32..].copy_from_slice(&y);
                "binding"
            }
            _ => {
                // more or fewer actions than the proof is for
                if w.actions.len() > 1 && ctx.pick("edit.fewer", 2) == 1 {
                    w.actions.remove(i);
                    w.sigs.remove(i);
                } else {
                    let a = w.actions[i].clone();
                    let s = w.sigs[i];
                    w.actions.push(a);
                    w.sigs.push(s);
                }
                "count"
            }
        };
        ctx.fault(&format!("hostile.{name}"));
    }
    w
}

/// Everything a node and a wallet do with a bundle.
fn digest(ctx: &mut Ctx, w: &Wire, keys: &Party) -> Res<Option<Auth>> {
    // As raw bytes with damage in the framing too.
    let mut raw = w.encode();
    if ctx.chance("raw.damage", 1, 3) {
        match ctx.pick("raw.how", 3) {
            0 => {
                let n = raw.len();
                raw[ctx.pick("raw.at", n)] ^= 1 << ctx.pick("raw.bit", 8);
            }
            1 => raw.truncate(ctx.pick("raw.cut", raw.len() + 1)),
            _ => raw[0] = ctx.pick("raw.count", 256) as u8,
        }
        ctx.fault("hostile.framing");
    }
    ctx.log_bytes("received", &raw);
    let parsed = Wire::decode(&raw).and_then(|w| w.parse());
    ctx.log(format!("bundle of {} actions parses: {}", w.actions.len(), parsed.is_some()));
    let Some(b) = parsed else {
        ctx.probe("refused_at_parsing");
        return Ok(None);
    };
    let w = Wire::of(&b);
    let msg: [u8; 32] = sighash(&b, b"hostile");
    let _ = b.authorizing_commitment().0;
    let _ = format!("{b:?}").len();
    ctx.check_eq(<[u8; 32]>::from(b.commitment()), w.ref_txid(), "digest", "effects digest of a hostile bundle")?;
    // Proof.
    let v1 = b.verify_proof(vk()).is_ok();
    ctx.schedule_threads("again");
    let v2 = b.verify_proof(vk()).is_ok();
    ctx.check_eq(v1, v2, "verdict", "proof verification asked twice")?;
    ctx.probe(if v1 { "proof_ok" } else { "proof_refused" });
    // Signatures.
    let s = signatures_ok(&b, &msg);
    ctx.check_eq(s, w.ref_sigs_ok(&msg), "verdict", "signatures of a hostile bundle")?;
    for a in b.actions() {
        let _ = a.rk().verify(&[], a.authorization()).is_ok();
        let i = a.to_instance(*b.flags(), *b.anchor());
        let _ = i.clone();
        let _ = b.authorization().proof().verify(vk(), &[i]).is_ok();
        let other = Instance::from_parts(*b.anchor(), a.cv_net().clone(), *a.nullifier(), a.rk().clone(), *a.cmx(), true, true);
        let _ = b.authorization().proof().verify(vk(), &[other.clone(), other]).is_ok();
    }
    let _ = b.binding_validating_key();
    // Scanning.
    let ivks = keys.ivks();
    let ovks: Vec<OutgoingViewingKey> = SCOPES.iter().map(|s| keys.fvk.to_ovk(*s)).collect();
    let x = b.decrypt_outputs_with_keys(&ivks).len();
    let y: usize = (0..b.actions().len()).filter(|i| ivks.iter().any(|k| b.decrypt_output_with_key(*i, k).is_some())).count();
    ctx.check_eq(x, y, "verdict", "outputs found in a hostile bundle")?;
    let _ = b.decrypt_outputs_with_keys(&[]).len();
    let _ = b.recover_outputs_with_ovks(&ovks).len();
    let _ = b.recover_outputs_with_ovks(&[]).len();
    for i in [0, b.actions().len() - 1, b.actions().len(), usize::MAX] {
        let _ = b.decrypt_output_with_key(i, &ivks[0]).is_some();
        let _ = b.recover_output_with_ovk(i, &ovks[0]).is_some();
    }
    let pivks: Vec<_> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
    let compact: Vec<_> = b
        .actions()
        .iter()
        .map(|a| {
            let c = CompactAction::from(a);
            (OrchardDomain::for_compact_action(&c), c)
        })
        .collect();
    let _ = zcash_note_encryption::batch::try_compact_note_decryption(&pivks, &compact).len();
    for (d, c) in &compact {
        for p in &pivks {
            let _ = zcash_note_encryption::try_compact_note_decryption(d, p, c).is_some();
        }
    }
    Ok(Some(b))
}

fn bundles(ctx: &mut Ctx) -> Res {
    let keys = Party::new(ctx, "wallet");
    let n = ctx.range("n.bundles", 1, 3);
    let mut ok = vec![];
    for _ in 0..n {
        let w = evil_wire(ctx, &keys);
        if let Some(b) = digest(ctx, &w, &keys)? {
            ok.push(b);
        }
    }
    // All of them in one batch, some twice.
    ctx.schedule_threads("batch");
    let mut v = BatchValidator::new();
    let mut want = true;
    for b in &ok {
        let msg: [u8; 32] = if ctx.pick("batch.msg", 3) == 1 { evil32(ctx) } else { sighash(b, b"hostile") };
        for _ in 0..ctx.range("batch.copies", 1, 2) {
            v.add_bundle(b, msg);
        }
        want &= node_accepts(b, &msg);
    }
    let got = v.validate(vk(), ctx.rng("batch"));
    ctx.check_eq(got, want, "verdict", "batch of hostile bundles")?;
    ctx.probe(if got { "batch_accepted" } else { "batch_refused" });
    ctx.state(&format!("bundles/{}/{want}", ok.len()));
    Ok(())
}

/// Keys and addresses out of files.
fn files(ctx: &mut Ctx) -> Res {
    let p = Party::new(ctx, "p");
    for _ in 0..ctx.range("n.files", 2, 6) {
        match ctx.pick("file", 8) {
            0 => {
                // Other lengths panic, as documented.
                let n = [32usize, 33, 64, 251, 252][ctx.pick("seed.len", 5)];
                let seed = evil_bytes(ctx, n);
                let coin = [0u32, 133, (1 << 31) - 1, 1 << 31, u32::MAX][ctx.pick("coin", 5)];
                let acct = [0u32, 1, (1 << 31) - 1][ctx.pick("account", 3)];
                let r = SpendingKey::from_zip32_seed(&seed, coin, zip32::AccountId::try_from(acct).unwrap());
                ctx.check_eq(r.is_ok(), coin < 1 << 31 && RSk::from_seed(&seed, coin, acct).is_some(), "verdict", "whether a seed makes a key")?;
                if let Ok(sk) = r {
                    let f = FullViewingKey::from(&sk);
                    let _ = f.to_ivk(Scope::Internal).address_at(u64::MAX);
                }
            }
            1 => {
                let b = evil32(ctx);
                if let Some(sk) = Option::<SpendingKey>::from(SpendingKey::from_bytes(b)) {
                    let _ = SpendAuthorizingKey::from(&sk);
                    let _ = FullViewingKey::from(&sk).to_bytes();
                    let _ = sk.to_bytes();
                    ctx.probe("odd_spending_key");
                }
            }
            2 => {
                let mut b = [0u8; 96];
                let keep = ctx.pick("fvk.keep", 8);
                b.copy_from_slice(&p.fvk.to_bytes());
                for k in 0..3 {
                    if keep >> k & 1 == 0 {
                        b[32 * k..32 * k + 32].copy_from_slice(&evil32(ctx));
                    }
                }
                let f = FullViewingKey::from_bytes(&b);
                ctx.check_eq(f.is_some(), RFvk::from_bytes(&b).is_some(), "verdict", "whether a viewing key loads")?;
                let _ = FullViewingKey::read(&b[..]).is_ok();
                let _ = FullViewingKey::read(&b[..ctx.pick("read.cut", 97)]).is_ok();
                if let Some(f) = f {
                    ctx.probe("odd_viewing_key");
                    for s in SCOPES {
                        let i = f.to_ivk(s);
                        let a = f.address_at(diversifier_index(ctx), s);
                        let _ = i.diversifier_index(&a);
                        let _ = i.prepare();
                        let _ = f.to_ovk(s);
                        let _ = f.scope_for_address(&a);
                        let v = any_value(ctx);
                        let n = mint(ctx, &a, v);
                        let _ = n.nullifier(&f);
                    }
                    let ak: SpendValidatingKey = f.clone().into();
                    let _ = ak.randomize(&fq(&evil32(ctx)).unwrap_or(Fq::ONE));
                    // somebody else's notes
                    let a = p.addr(0, Scope::External);
                    let note = mint(ctx, &a, 3);
                    let pos = position(ctx);
                    let mut t = Sparse::new(None);
                    t.insert(pos, cmx_of(&note));
                    let mut b = Builder::new(BundleType::DEFAULT, anchor(&t.root()));
                    let own = f.to_bytes() == p.fvk.to_bytes();
                    ctx.check_eq(b.add_spend(f, note, merkle_path(pos, &t.path(pos))).is_ok(), own, "verdict", "whether a viewing key may spend a note")?;
                }
            }
            3 => {
                let mut b = [0u8; 64];
                b[..32].copy_from_slice(&evil32(ctx));
                b[32..].copy_from_slice(&evil32(ctx));
                let i = Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(&b));
                ctx.check_eq(i.is_some(), RIvk::from_bytes(&b).is_some(), "verdict", "whether an incoming key loads")?;
                if let Some(i) = i {
                    ctx.probe("odd_incoming_key");
                    let a = i.address_at(diversifier_index(ctx));
                    let _ = i.diversifier_index(&a);
                    let act = craft(ctx, std::slice::from_ref(&p)).a;
                    for how in 0..4 {
                        look(ctx, how, &act, &i)?;
                        look_compact(ctx, how, &act, &i)?;
                    }
                }
            }
            4 => {
                let mut b = [0u8; 43];
                b[..11].copy_from_slice(&evil_bytes(ctx, 11));
                b[11..].copy_from_slice(&evil32(ctx));
                let a = Option::<Address>::from(Address::from_raw_address_bytes(&b));
                ctx.check_eq(a.is_some(), address_ok(&b), "verdict", "whether an address loads")?;
                if let Some(a) = a {
                    ctx.probe("odd_address");
                    let _ = p.fvk.scope_for_address(&a);
                    let _ = p.fvk.to_ivk(Scope::External).diversifier_index(&a);
                    let _ = a.diversifier();
                    let mut bl = Builder::new(BundleType::DEFAULT, Anchor::from_bytes(evil_fp(ctx)).unwrap());
                    let memo = if ctx.pick("memo", 2) == 1 { Some(evil_bytes(ctx, 512).try_into().unwrap()) } else { None };
                    let v = any_value(ctx);
                    let _ = bl.add_output(Some(OutgoingViewingKey::from(evil32(ctx))), a, NoteValue::from_raw(v), memo);
                    let _ = bl.value_balance::<i64>().is_ok();
                    let rng = ctx.rng("pay");
                    let r = bl.build::<i64>(rng);
                    ctx.check_eq(r.is_ok(), v <= 1 << 63, "verdict", "whether an odd address can be paid")?;
                }
            }
            5 => {
                let d: [u8; 11] = evil_bytes(ctx, 11).try_into().unwrap();
                let a = p.fvk.address(Diversifier::from_bytes(d), Scope::External);
                let _ = p.fvk.to_ivk(Scope::External).diversifier_index(&a);
            }
            6 => {
                let rho = Option::<Rho>::from(Rho::from_bytes(&evil32(ctx)));
                if let Some(rho) = rho {
                    let rs = Option::<RandomSeed>::from(RandomSeed::from_bytes(evil32(ctx), &rho));
                    if let Some(rs) = rs {
                        let mut b = [0u8; 43];
                        b[..11].copy_from_slice(&evil_bytes(ctx, 11));
                        b[11..].copy_from_slice(&evil_point(ctx));
                        if let Some(a) = Option::<Address>::from(Address::from_raw_address_bytes(&b)) {
                            let v = NoteValue::from_raw(any_value(ctx));
                            if let Some(n) = Option::<Note>::from(Note::from_parts(a, v, rho, rs)) {
                                ctx.probe("odd_note");
                                let _ = n.nullifier(&p.fvk);
                                let _ = n.commitment();
                                let _ = format!("{n:?}");
                            }
                        }
                    }
                }
            }
            _ => {
                let b = evil32(ctx);
                if let Ok(k) = redpallas::SigningKey::<SpendAuth>::try_from(b) {
                    let _ = k.randomize(&fq(&evil32(ctx)).unwrap_or(Fq::ONE));
                    let _ = k.sign(ctx.rng("s"), &[]);
                    let _ = redpallas::VerificationKey::from(&k);
                    ctx.probe("odd_signing_key");
                }
                if let Ok(k) = redpallas::VerificationKey::<Binding>::try_from(b) {
                    let mut s = [0; 64];
                    s[..32].copy_from_slice(&evil32(ctx));
                    s[32..].copy_from_slice(&evil32(ctx));
                    let _ = k.verify(&[], &redpallas::Signature::from(s)).is_ok();
                    let mut bt = redpallas::VerificationKey::<SpendAuth>::try_from(b);
                    if let Ok(k) = bt.as_mut() {
                        let _ = k.randomize(&Fq::ZERO);
                        let _ = format!("{k:?}");
                    }
                }
                if let Some(t) = Option::<ValueCommitTrapdoor>::from(ValueCommitTrapdoor::from_bytes(b)) {
                    let v = NoteValue::from_raw(any_value(ctx)) - NoteValue::from_raw(any_value(ctx));
                    let _ = ValueCommitment::derive(v, t);
                }
                let _ = OrchardDomain::epk(&EphemeralKeyBytes(b)).is_some();
                let _ = Nullifier::from_bytes(&b).is_some();
                let n = [31, 32, 33][ctx.pick("json", 3)];
                let js = serde_json::to_string(&evil_bytes(ctx, n)).unwrap();
                let _ = serde_json::from_str::<MerkleHashOrchard>(&js).is_ok();
                let _ = Flags::from_byte(b[0]);
            }
        }
        ctx.checks += 1;
        let after = ctx.u64("file.after");
        ctx.log(format!("file read {after:x}"));
    }
    Ok(())
}

/// Trees, paths and spends made from what others supplied.
fn trees(ctx: &mut Ctx) -> Res {
    let p = Party::new(ctx, "p");
    let node = |ctx: &mut Ctx| MerkleHashOrchard::from_bytes(&evil_fp(ctx)).unwrap();
    let mut t: CommitmentTree<MerkleHashOrchard, 32> = CommitmentTree::empty();
    let mut w: Vec<IncrementalWitness<MerkleHashOrchard, 32>> = vec![];
    for _ in 0..ctx.pick("n.leaves", 12) {
        let l = node(ctx);
        let _ = t.append(l);
        for x in w.iter_mut() {
            let _ = x.append(l);
        }
        if ctx.pick("mark", 3) == 0 {
            w.push(IncrementalWitness::from_tree(t.clone()));
        }
    }
    for x in &w {
        let r: Anchor = x.root().into();
        ctx.check_eq(r, t.root().into(), "verdict", "root of a witness over hostile leaves")?;
        let _ = x.path().map(MerklePath::from);
    }
    // A frontier out of a file.
    let pos = position(ctx);
    let om: Vec<_> = (0..pos.count_ones() as usize + ctx.pick("ommers.extra", 2)).map(|_| node(ctx)).collect();
    if let Ok(f) = Frontier::<MerkleHashOrchard, 32>::from_parts(Position::from(pos as u64), node(ctx), om) {
        let _: Anchor = f.root().into();
        let mut g = f.clone();
        let _ = g.append(node(ctx));
        let _ = g.root();
        ctx.probe("odd_frontier");
    }
    // A path out of a file.
    let sib: [[u8; 32]; 32] = std::array::from_fn(|_| [0; 32]).map(|_: [u8; 32]| evil_fp(ctx));
    let leaf = evil_fp(ctx);
    let got = merkle_path(pos, &sib).root(ExtractedNoteCommitment::from_bytes(&leaf).unwrap()).to_bytes();
    let want = path_root(&leaf, pos, &sib);
    ctx.check_eq(Some(got), want, "verdict", "root of a hostile path")?;
    // Spends: other people's keys, wrong paths, odd notes.
    let scope = SCOPES[ctx.pick("scope", 2)];
    let v = any_value(ctx);
    let to = p.addr(diversifier_index(ctx), scope);
    let note = mint(ctx, &to, v);
    let root = path_root(&cmx_of(&note), pos, &sib).unwrap();
    let a = if ctx.pick("anchor.match", 2) == 1 { root } else { evil_fp(ctx) };
    let ty = bundle_type(ctx, true);
    let mut b = Builder::new(ty, anchor(&a));
    let stranger = Party::new(ctx, "stranger");
    let fvk = if ctx.pick("fvk", 3) == 1 { stranger.fvk.clone() } else { p.fvk.clone() };
    let mine = fvk == p.fvk;
    let r = b.add_spend(fvk.clone(), note, merkle_path(pos, &sib));
    let ok = rules(&ty).0 && mine && (a == root || v == 0);
    ctx.check_eq(r.is_ok(), ok, "verdict", "whether a spend from hostile parts is accepted")?;
    let rng = ctx.rng("build");
    if ok {
        let r = b.build::<i64>(rng);
        ctx.check_eq(r.is_ok(), v <= i64::MAX as u64, "verdict", "whether it builds")?;
    } else {
        let s = SpendInfo::new(fvk, note, merkle_path(pos, &sib)).map(|s| vec![s]).unwrap_or_default();
        let none = s.is_empty();
        let o: Vec<OutputInfo> = vec![];
        let r = build_bundle::<i64>(rng, anchor(&a), ty, s, o);
        ctx.check(none || r.is_err(), "verdict", || "an impossible spend was built".into())?;
    }
    ctx.log_bytes("root", &root);
    ctx.log(format!("spend {ok}"));
    ctx.state(&format!("trees/{ok}"));
    Ok(())
}

/// Signatures from co-signers, and broken entropy while signing.
fn cosigners(ctx: &mut Ctx) -> Res {
    let c = corpus();
    let plan = make_plan(ctx,  PlanCfg { any_values: true, big: 30, ..Default::default() });
    let broken = ctx.pick("entropy", 3) == 1;
    let rng = ctx.rng("build");
    let built = if broken {
        ctx.fault("entropy.stuck");
        let good = ctx.pick("stuck.good", 400);
        plan.build(false, Stuck::new(rng, good, 1 + ctx.pick("stuck.period", 4)))
    } else {
        plan.build(false, rng)
    };
    let un = match built {
        Ok(Some((u, _))) => u,
        Ok(None) => return Ok(()),
        Err(_) => {
            ctx.check(i64::try_from(plan.balance()).is_err() || broken, "verdict", || format!("building {} failed", plan.describe()))?;
            return Ok(());
        }
    };
    let msg = evil32(ctx);
    let pr = if c.is_empty() { vec![] } else { c[0].proof.clone() };
    let again = |ctx: &mut Ctx| attach_proof(un.clone(), pr.clone()).prepare(ctx.rng("prepare"), msg);
    let signed = again(ctx).sign(ctx.rng("sign"), &plan.parties[0].ask);
    let good: Vec<Sig> = signed
        .actions()
        .iter()
        .filter_map(|a| match a.authorization() {
            orchard::builder::MaybeSigned::Signature(s) => Some(s.clone()),
            _ => None,
        })
        .collect();
    let mut part = again(ctx);
    for _ in 0..ctx.range("n.messages", 1, 4) {
        let mut list = vec![];
        for _ in 0..ctx.pick("n.sigs", 4) {
            if !good.is_empty() && ctx.pick("sig.good", 3) == 0 {
                list.push(good[ctx.pick("sig.which", good.len())].clone());
            } else {
                let mut s = [0; 64];
                s[..32].copy_from_slice(&evil32(ctx));
                s[32..].copy_from_slice(&evil32(ctx));
                list.push(Sig::from(s));
            }
        }
        part = match part.append_signatures(&list) {
            Ok(p) => p,
            Err(_) => again(ctx),
        };
    }
    let n = part.actions().len();
    let f = part.finalize();
    ctx.log_bytes("message", &msg);
    ctx.log(format!("{n} actions, finalizes: {}", f.is_ok()));
    if let Ok(a) = f {
        ctx.check(signatures_ok(&a, &msg), "verdict", || "an authorized bundle has a bad signature".into())?;
        let _ = a.verify_proof(vk()).is_ok();
    }
    Ok(())
}

struct S;
impl Scenario for S {
    fn prepare(&self, seed: u64, thorough: bool) {
        prepare_corpus(seed, if thorough { 10 } else { 5 });
    }
    fn run(&self, ctx: &mut Ctx) -> Res {
        match ctx.pick("part", 8) {
            0 => files(ctx),
            1 => trees(ctx),
            2 => cosigners(ctx),
            _ => bundles(ctx),
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C17",
        scenario: Box::new(S),
        quick_runs: 1200,
        thorough_runs: 20_000,
        rule: "Each run plays a hostile peer, file or co-signer: bundles built from or damaged into hostile encodings (identity points, unreduced and boundary field elements, truncated, spliced and noisy proofs, extreme balances, wrong counts) go through parsing, digests, proof verification, signatures, batches, scanning and recovery; keys, addresses, notes, frontiers, paths and signatures of the same kind go through every operation that takes them.",
        real: &["orchard (all public operations on external data)", "halo2_proofs verifier", "reddsa", "zcash_note_encryption", "incrementalmerkletree"],
        stub: &["network framing (the simulator's own)"],
        assumptions: &["a run that does not finish in 100 s counts as endless"],
    }
}
