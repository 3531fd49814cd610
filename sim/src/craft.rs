//! Outputs as arbitrary senders may publish them, and scanning devices.
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::bundle::Bundle;
use orchard::keys::{FullViewingKey, IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey, Scope, SpendingKey};
use orchard::note_encryption::{CompactAction, OrchardDomain};
use orchard::{Address, Note};

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::world::*;

pub type Found = (RNote, [u8; 512]);

/// An output on its way to the chain: what was published, and what its sender meant.
#[derive(Clone)]
pub struct Pub {
    pub a: RAction,
    pub what: String,
    /// Set when the sender was honest: note, memo, recipient, scope, ovk.
    pub sent: Option<Sent>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sent {
    pub note: RNote,
    pub memo: [u8; 512],
    pub party: usize,
    pub scope: Scope,
    pub ovk: Option<[u8; 32]>,
}

/// x + modulus as 32 bytes, when it fits below `top` bits.
pub fn noncanonical(b: &[u8; 32], minus_one: &[u8; 32], top: u32) -> Option<[u8; 32]> {
    let mut o = [0u8; 32];
    let mut carry = 1u16;
    for i in 0..32 {
        let v = b[i] as u16 + minus_one[i] as u16 + carry;
        o[i] = v as u8;
        carry = v >> 8;
    }
    if carry != 0 || (top < 256 && o[31] >> (top - 248) != 0) {
        None
    } else {
        Some(o)
    }
}
pub fn noncanonical_fp(b: &[u8; 32]) -> Option<[u8; 32]> {
    noncanonical(b, &(-Fp::ONE).to_repr(), 256)
}
pub fn noncanonical_fq(b: &[u8; 32]) -> Option<[u8; 32]> {
    noncanonical(b, &(-Fq::ONE).to_repr(), 256)
}
/// The same point with its x-coordinate not reduced.
pub fn noncanonical_pt(b: &[u8; 32]) -> Option<[u8; 32]> {
    let mut x = *b;
    let s = x[31] & 0x80;
    x[31] &= 0x7f;
    let mut y = noncanonical(&x, &(-Fp::ONE).to_repr(), 255)?;
    y[31] |= s;
    Some(y)
}
pub fn random_point(ctx: &mut Ctx, label: &str) -> [u8; 32] {
    (Pt::generator() * to_fq(&ctx.bytes::<64>(label))).to_bytes()
}

pub fn any_addr(ctx: &mut Ctx, parties: &[Party]) -> (usize, Scope, Address) {
    let p = ctx.pick("to.party", parties.len());
    let s = SCOPES[ctx.pick("to.scope", 2)];
    (p, s, parties[p].addr(diversifier_index(ctx), s))
}

/// Outputs made by the crate's own builder.
pub fn honest(ctx: &mut Ctx, parties: &[Party], outs: usize) -> Res<(Plan, Vec<Pub>, Unauth)> {
    let ns = match ctx.pick("honest.spends", 3) {
        0 => 0,
        _ => ctx.range("honest.n.spends", 1, 3),
    };
    let ty = if ns == 0 && ctx.chance("honest.coinbase", 1, 4) {
        orchard::builder::BundleType::Coinbase
    } else {
        orchard::builder::BundleType::DEFAULT
    };
    let (spends, root) = make_spends(ctx, parties, ns, false);
    let plan = Plan {
        parties: parties.to_vec(),
        ty,
        anchor: root,
        spends,
        outs: (0..outs.max(1)).map(|_| make_out(ctx, parties, false)).collect(),
    };
    let custom = ctx.pick("custom", 2) == 1;
    let rng = ctx.rng("build");
    let Some((b, meta)) = plan.build_ok(ctx, custom, rng)? else {
        return ctx.violation("no-bundle", "a bundle with outputs was not built");
    };
    let acts = ractions(&b);
    let mut pubs: Vec<Pub> = acts.iter().map(|a| Pub { a: a.clone(), what: "dummy".into(), sent: None }).collect();
    for (k, o) in plan.outs.iter().enumerate() {
        let Some(i) = meta.output_action_index(k) else {
            return ctx.violation("output-location", "no action for a requested output");
        };
        // The note's seed is the builder's own; it is known from decryption by the model.
        let m = &parties[o.party].r.fvk.ivk(rscope(o.scope)).unwrap();
        let Some((note, mm)) = decrypt(&m.ivk, &acts[i]) else {
            return ctx.violation("honest-output-lost", format!("the recipient cannot decrypt an honest output ({})", plan.describe()));
        };
        ctx.check_eq(note.addr, o.addr.to_raw_address_bytes(), "wrong-address", "address of the received note")?;
        ctx.check_eq(note.value, o.value, "wrong-value", "value of the received note")?;
        ctx.check_eq(note.rho, acts[i].nf, "wrong-rho", "identifier of the received note")?;
        ctx.check(mm == memo_bytes(&o.memo), "wrong-memo", || "memo differs from the one sent".into())?;
        pubs[i].what = "honest".into();
        pubs[i].sent = Some(Sent { note, memo: mm, party: o.party, scope: o.scope, ovk: o.ovk });
    }
    // What fills a bundle up is addressed to nobody here, and nobody here was given a key for it.
    for p in pubs.iter().filter(|p| p.sent.is_none()) {
        for q in parties {
            for s in [RScope::External, RScope::Internal] {
                let mine = decrypt(&q.r.fvk.ivk(s).unwrap().ivk, &p.a).is_some() || recover(&q.r.fvk.ovk(s), &p.a).is_some();
                ctx.check(!mine, "padding-found", || format!("a wallet finds an output nobody asked for ({})", plan.describe()))?;
            }
        }
    }
    Ok((plan, pubs, b))
}

/// An output put together by hand: follows the protocol except for up to two deviations.
pub fn craft(ctx: &mut Ctx, parties: &[Party]) -> Pub {
    let (party, scope, addr) = any_addr(ctx, parties);
    let nf = canonical_fp(ctx, "craft.nf");
    let n = loop {
        let n = RNote { addr: addr.to_raw_address_bytes(), value: any_value(ctx), rho: nf, rseed: ctx.bytes("craft.rseed") };
        if n.esk().is_some() && n.cm().is_some() {
            break n;
        }
    };
    let memo: [u8; 512] = memo_bytes(&memo(ctx));
    let ovk: Option<[u8; 32]> = match ctx.pick("craft.ovk", 4) {
        0 => Some(*parties[ctx.pick("craft.from", parties.len())].fvk.to_ovk(SCOPES[ctx.pick("craft.ovkscope", 2)]).as_ref()),
        1 => None,
        _ => Some(*parties[0].fvk.to_ovk(Scope::External).as_ref()),
    };
    let cv = random_point(ctx, "craft.cv");
    let rk = random_point(ctx, "craft.rk");
    // what each part is derived from
    let mut plain = n.clone();
    let mut com = n.clone();
    let mut lead = 2u8;
    let mut esk = n.esk().unwrap();
    let mut base = g_d(&n.d());
    let mut enc_pk = pt(&n.pk_d()).unwrap();
    let mut epk_bytes: Option<[u8; 32]> = None;
    let mut op_pk = n.pk_d();
    let mut op_esk: Option<[u8; 32]> = None;
    let mut ock_in: [Option<[u8; 32]>; 3] = [None; 3];
    let mut cmx_override: Option<[u8; 32]> = None;
    let mut kinds = vec![];
    let nd = [0, 1, 1, 1, 2, 2][ctx.pick("craft.deviations", 6)];
    for _ in 0..nd {
        let other = any_addr(ctx, parties);
        let other = other.2.to_raw_address_bytes();
        let k = ctx.pick("craft.kind", 27);
        let name = match k {
            0 => {
                lead = [1, 0, 3, 0xff][ctx.pick("craft.lead", 4)];
                "lead"
            }
            1 => {
                plain.rseed = ctx.bytes("craft.rseed2");
                "plain-rseed"
            }
            2 => {
                com.rseed = ctx.bytes("craft.rseed2");
                "committed-rseed"
            }
            3 => {
                esk = to_fq(&ctx.bytes::<64>("craft.esk"));
                "random-esk"
            }
            4 => {
                let d: [u8; 11] = other[..11].try_into().unwrap();
                plain.addr[..11].copy_from_slice(&d);
                "plain-diversifier"
            }
            5 => {
                plain.value = plain.value.wrapping_add(1 << ctx.pick("craft.bit", 64));
                "plain-value"
            }
            6 => {
                com.value = com.value.wrapping_add(1 << ctx.pick("craft.bit", 64));
                "committed-value"
            }
            7 => {
                com.rho = canonical_fp(ctx, "craft.rho");
                "committed-rho"
            }
            8 => {
                cmx_override = Some(canonical_fp(ctx, "craft.cmx"));
                "random-cmx"
            }
            9 => {
                com.addr = other;
                "committed-address"
            }
            10 => {
                com.addr[11..].copy_from_slice(&random_point(ctx, "craft.pkd"));
                "committed-pk_d"
            }
            11 => {
                base = pt(&random_point(ctx, "craft.base")).unwrap();
                "epk-base"
            }
            12 => {
                base = g_d(&other[..11].try_into().unwrap());
                "epk-other-diversifier"
            }
            13 => {
                esk = -esk;
                "negated-esk"
            }
            14 => {
                esk = Fq::ZERO;
                "zero-esk"
            }
            15 => {
                epk_bytes = noncanonical_pt(&(base * esk).to_bytes());
                "epk-noncanonical"
            }
            16 => {
                epk_bytes = Some(ctx.bytes("craft.epk"));
                "epk-random-bytes"
            }
            17 => {
                enc_pk = pt(&other[11..].try_into().unwrap()).unwrap();
                "encrypted-to-other"
            }
            18 => {
                op_pk = other[11..].try_into().unwrap();
                "out-other-pk_d"
            }
            19 => {
                op_pk = [0; 32];
                "out-identity-pk_d"
            }
            20 => {
                if let Some(x) = noncanonical_pt(&op_pk) {
                    op_pk = x;
                }
                "out-noncanonical-pk_d"
            }
            21 => {
                op_esk = Some(to_fq(&ctx.bytes::<64>("craft.opesk")).to_repr());
                "out-other-esk"
            }
            22 => {
                op_esk = noncanonical_fq(&esk.to_repr());
                "out-noncanonical-esk"
            }
            23 => {
                op_esk = Some([0; 32]);
                "out-zero-esk"
            }
            24 => {
                ock_in[ctx.pick("craft.ockin", 3)] = Some(random_point(ctx, "craft.ock"));
                "ock-inputs"
            }
            25 => {
                // everything says pk_d', which its owner did not derive from this diversifier
                let x = random_point(ctx, "craft.pkd");
                plain.addr[11..].copy_from_slice(&x);
                com.addr[11..].copy_from_slice(&x);
                op_pk = x;
                "foreign-pk_d"
            }
            _ => {
                // fully consistent with the other diversifier of the same seed
                let d: [u8; 11] = other[..11].try_into().unwrap();
                for x in [&mut plain, &mut com] {
                    x.addr[..11].copy_from_slice(&d);
                }
                base = g_d(&d);
                "other-diversifier-throughout"
            }
        };
        ctx.fault(&format!("craft.{name}"));
        kinds.push(name);
    }
    let cmx = cmx_override.or_else(|| com.cmx()).unwrap_or([7; 32]);
    let epk = epk_bytes.unwrap_or_else(|| (base * esk).to_bytes());
    let shared = if bool::from(esk.is_zero()) { Pt::identity() } else { enc_pk * esk };
    let enc = aead_seal(&kdf(&shared, &epk), &plain.plaintext(lead, &memo));
    let mut op = [0; 64];
    op[..32].copy_from_slice(&op_pk);
    op[32..].copy_from_slice(&op_esk.unwrap_or_else(|| esk.to_repr()));
    let out = match ovk {
        Some(o) => aead_seal(&ock(&o, &ock_in[0].unwrap_or(cv), &ock_in[1].unwrap_or(cmx), &ock_in[2].unwrap_or(epk)), &op),
        None => aead_seal(&ctx.bytes::<32>("craft.rndkey"), &ctx.bytes::<64>("craft.rndop")),
    };
    let a = RAction { cv, nf, rk, cmx, epk, enc, out };
    let sent = if kinds.is_empty() { Some(Sent { note: n, memo, party, scope, ovk }) } else { None };
    Pub { a, what: if kinds.is_empty() { "by-hand".into() } else { kinds.join("+") }, sent }
}

/// Corruption on the way, or by whoever relays it. Returns what was done.
pub fn corrupt(ctx: &mut Ctx, a: &mut RAction, other: &RAction) -> &'static str {
    let bit = 1u8 << ctx.pick("corrupt.bit", 8);
    let k = ctx.pick("corrupt", 18);
    let name = match k {
        0 => {
            a.enc[ctx.pick("corrupt.at", 580)] ^= bit;
            "enc"
        }
        1 => {
            a.enc[ctx.pick("corrupt.at", 52)] ^= bit;
            "enc-compact"
        }
        2 => {
            a.enc[52 + ctx.pick("corrupt.at", 512)] ^= bit;
            "enc-memo"
        }
        3 => {
            a.enc[564 + ctx.pick("corrupt.at", 16)] ^= bit;
            "enc-tag"
        }
        4 => {
            a.out[ctx.pick("corrupt.at", 80)] ^= bit;
            "out"
        }
        5 => {
            a.epk[ctx.pick("corrupt.at", 32)] ^= bit;
            "epk"
        }
        6 => {
            a.epk[31] ^= 0x80;
            "epk-sign"
        }
        7 => {
            a.epk = [0; 32];
            "epk-identity"
        }
        8 => {
            if let Some(e) = noncanonical_pt(&a.epk) {
                a.epk = e;
            }
            "epk-noncanonical"
        }
        9 => {
            a.cmx[ctx.pick("corrupt.at", 31)] ^= bit;
            "cmx"
        }
        10 => {
            a.nf[ctx.pick("corrupt.at", 31)] ^= bit;
            "nf"
        }
        11 => {
            a.cv = other.cv;
            "cv"
        }
        12 => {
            a.cmx = other.cmx;
            "swap-cmx"
        }
        13 => {
            a.nf = other.nf;
            "swap-nf"
        }
        14 => {
            a.epk = other.epk;
            "swap-epk"
        }
        15 => {
            a.enc = other.enc.clone();
            "swap-enc"
        }
        16 => {
            a.out = other.out.clone();
            "swap-out"
        }
        _ => {
            a.rk = other.rk;
            "rk"
        }
    };
    ctx.fault(&format!("corrupt.{name}"));
    name
}

/// A mix of honest, hand-made, crafted and corrupted outputs.
pub fn published(ctx: &mut Ctx, parties: &[Party], max_bundles: usize, max_crafted: usize) -> Res<Vec<Pub>> {
    let mut pubs = vec![];
    let many = ctx.chance("pubs.many", 1, 16);
    if many {
        ctx.probe("many_outputs");
    }
    for _ in 0..ctx.range("n.bundles", 0, max_bundles) {
        let n = ctx.range("n.outs", 1, if many { 14 } else { 3 });
        pubs.extend(honest(ctx, parties, n)?.1);
    }
    for _ in 0..ctx.range("n.crafted", 1, if many { 20 } else { max_crafted }) {
        pubs.push(craft(ctx, parties));
    }
    let n = pubs.len();
    for i in 0..n {
        if ctx.chance("relay.corrupts", 1, 4) {
            let j = ctx.pick("relay.other", n);
            let other = pubs[j].a.clone();
            let before = pubs[i].a.clone();
            let k = corrupt(ctx, &mut pubs[i].a, &other);
            if pubs[i].a != before {
                pubs[i].what = format!("{}/{k}", pubs[i].what);
                pubs[i].sent = None;
            }
        }
    }
    Ok(pubs)
}

/// A published action as a bundle with one action, the way a wallet meets it.
pub fn bundle_of(acts: &[RAction]) -> Option<Auth> {
    Wire {
        actions: acts.to_vec(),
        flags: 3,
        balance: 0,
        anchor: empty_root(32).to_repr(),
        proof: vec![],
        sigs: vec![[0; 64]; acts.len()],
        binding: [0; 64],
    }
    .parse()
}
pub fn parses(a: &RAction) -> bool {
    action_from(a, ()).is_some()
}

pub fn found(x: (Note, Address, [u8; 512])) -> (Found, [u8; 43]) {
    ((rnote(&x.0), x.2), x.1.to_raw_address_bytes())
}
/// The found address must be the note's.
pub fn settle(ctx: &mut Ctx, x: Option<(Note, Address, [u8; 512])>) -> Res<Option<Found>> {
    match x {
        None => Ok(None),
        Some(x) => {
            let cm_ok = x.0.recipient() == x.1;
            let (f, addr) = found(x);
            ctx.check(cm_ok && f.0.addr == addr, "address-differs", || "the reported address is not the note's".into())?;
            Ok(Some(f))
        }
    }
}

/// One way of looking at one action with one incoming viewing key.
pub fn look(ctx: &mut Ctx, how: usize, a: &RAction, ivk: &IncomingViewingKey) -> Res<Option<Found>> {
    let Some(b) = bundle_of(std::slice::from_ref(a)) else { return Ok(None) };
    let r = match how {
        0 => b.decrypt_output_with_key(0, ivk),
        1 => {
            let v = b.decrypt_outputs_with_keys(std::slice::from_ref(ivk));
            ctx.check(v.len() <= 1 && v.iter().all(|x| x.0 == 0 && x.1 == *ivk), "scan-index", || "scanning one action reports another index or key".into())?;
            v.into_iter().next().map(|(_, _, n, ad, m)| (n, ad, m))
        }
        2 => {
            let act = b.actions().first();
            zcash_note_encryption::try_note_decryption(&OrchardDomain::for_action(act), &PreparedIncomingViewingKey::new(ivk), act)
        }
        _ => {
            let act = b.actions().first();
            let v = zcash_note_encryption::batch::try_note_decryption(
                &[PreparedIncomingViewingKey::new(ivk)],
                &[(OrchardDomain::for_action(act), act.clone())],
            );
            ctx.check(v.len() == 1, "batch-length", || "batch of one".into())?;
            v.into_iter().next().flatten().map(|x| x.0)
        }
    };
    settle(ctx, r)
}
pub fn look_compact(ctx: &mut Ctx, how: usize, a: &RAction, ivk: &IncomingViewingKey) -> Res<Option<RNote>> {
    let c: Option<CompactAction> = if how & 1 == 0 { compact_from(a) } else { action_from(a, ()).map(|x| CompactAction::from(&x)) };
    let Some(c) = c else { return Ok(None) };
    let d = OrchardDomain::for_compact_action(&c);
    let p = PreparedIncomingViewingKey::new(ivk);
    let r = if how & 2 == 0 {
        zcash_note_encryption::try_compact_note_decryption(&d, &p, &c)
    } else {
        zcash_note_encryption::batch::try_compact_note_decryption(&[p], &[(d, c)]).into_iter().next().flatten().map(|x| x.0)
    };
    let r = settle(ctx, r.map(|(n, a)| (n, a, [0; 512])))?;
    Ok(r.map(|x| x.0))
}
pub fn look_out(ctx: &mut Ctx, how: usize, a: &RAction, ovk: &[u8; 32]) -> Res<Option<Found>> {
    let Some(b) = bundle_of(std::slice::from_ref(a)) else { return Ok(None) };
    let k = OutgoingViewingKey::from(*ovk);
    let r = match how {
        0 => b.recover_output_with_ovk(0, &k),
        1 => {
            let v = b.recover_outputs_with_ovks(std::slice::from_ref(&k));
            ctx.check(
                v.len() <= 1 && v.iter().all(|x| x.0 == 0 && AsRef::<[u8; 32]>::as_ref(&x.1) == ovk),
                "recover-index",
                || "recovering from one action reports another index or key".into(),
            )?;
            v.into_iter().next().map(|(_, _, n, ad, m)| (n, ad, m))
        }
        _ => {
            let act = b.actions().first();
            zcash_note_encryption::try_output_recovery_with_ovk(
                &OrchardDomain::for_action(act),
                &k,
                act,
                act.cv_net(),
                &act.encrypted_note().out_ciphertext,
            )
        }
    };
    settle(ctx, r)
}

/// What reading an output key from a device's storage gives.
pub fn device_ivk(ctx: &mut Ctx, p: &Party, s: Scope) -> Res<IncomingViewingKey> {
    let how = ctx.pick("device.ivk", 4);
    let k = match how {
        0 => Some(p.fvk.to_ivk(s)),
        1 => Option::from(IncomingViewingKey::from_bytes(&p.r.fvk.ivk(rscope(s)).unwrap().to_bytes())),
        2 => FullViewingKey::from_bytes(&p.r.fvk.to_bytes()).map(|f| f.to_ivk(s)),
        _ => Option::<SpendingKey>::from(SpendingKey::from_bytes(p.r.sk)).map(|sk| FullViewingKey::from(&sk).to_ivk(s)),
    };
    match k {
        Some(k) => Ok(k),
        None => ctx.violation("key-lost", format!("stored key form {how} does not load")),
    }
}

/// A note that was received: into the tree and into a builder, as far as the revealed
/// nullifier.
pub fn spendable(ctx: &mut Ctx, p: &Party, n: &RNote, cmx: &[u8; 32]) -> Res {
    let Some(note) = note_from(n) else { return ctx.violation("unspendable", "a received note does not rebuild from its parts") };
    let nf = n.nullifier(&p.r.fvk.nk).unwrap();
    ctx.check_eq(note.nullifier(&p.fvk).to_bytes(), nf, "unspendable", "nullifier of a received note")?;
    let pos = position(ctx);
    let mut t = Sparse::new(Some(ctx.u64("spendable.filler")));
    t.insert(pos, *cmx);
    let sp = PSpend { party: 0, scope: Scope::External, r: n.clone(), note, pos, sib: t.path(pos) };
    let plan = Plan { parties: vec![p.clone()], ty: orchard::builder::BundleType::DEFAULT, anchor: t.root(), spends: vec![sp], outs: vec![] };
    let rng = ctx.rng("spendable");
    let b = match plan.builder() {
        Ok(b) => b,
        Err(e) => return ctx.violation("unspendable", format!("an accepted note cannot be spent: {e}")),
    };
    match b.build::<i64>(rng) {
        Ok(Some((b, m))) => {
            let i = m.spend_action_index(0);
            ctx.check(i.map(|i| b.actions()[i].nullifier().to_bytes()) == Some(nf), "unspendable", || "the spend does not reveal the note's nullifier".into())
        }
        Ok(None) => ctx.violation("unspendable", "no bundle"),
        Err(e) => {
            // only values the balance type cannot represent may be refused
            ctx.check(n.value > i64::MAX as u64, "unspendable", || format!("{e:?}"))
        }
    }
}
