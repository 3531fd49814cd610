//! Everything with a byte encoding, through storage: encodings are canonical, what decodes is
//! usable, and a wallet that is killed at any byte continues from what it had stored.
use std::collections::BTreeMap;

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use incrementalmerkletree::frontier::CommitmentTree;
use incrementalmerkletree::witness::IncrementalWitness;
use orchard::builder::{Builder, BundleType};
use orchard::bundle::Flags;
use orchard::keys::{
    Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey, Scope,
    SpendAuthorizingKey, SpendValidatingKey, SpendingKey,
};
use orchard::note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho};
use orchard::note_encryption::OrchardDomain;
use orchard::primitives::redpallas::{Binding, Signature, SigningKey, SpendAuth, VerificationKey};
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::value::{NoteValue, ValueCommitTrapdoor, ValueCommitment};
use orchard::{Address, Anchor, Note, Proof};
use zcash_note_encryption::{Domain, EphemeralKeyBytes};

use crate::chain::*;
use crate::craft::*;
use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

// ------------------------------------------------------------------ encodings

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Sk,
    Fvk,
    Ivk,
    Ovk,
    Div,
    Addr,
    Rho,
    Seed,
    Cmx,
    Nf,
    Anchor,
    Node,
    NodeJson,
    Flags,
    Cv,
    Rcv,
    SignKey,
    BindKey,
    VerKey,
    BindVerKey,
    Sig,
    BindSig,
    Epk,
    Proof,
}
const ALL: [Kind; 24] = [
    Kind::Sk,
    Kind::Fvk,
    Kind::Ivk,
    Kind::Ovk,
    Kind::Div,
    Kind::Addr,
    Kind::Rho,
    Kind::Seed,
    Kind::Cmx,
    Kind::Nf,
    Kind::Anchor,
    Kind::Node,
    Kind::NodeJson,
    Kind::Flags,
    Kind::Cv,
    Kind::Rcv,
    Kind::SignKey,
    Kind::BindKey,
    Kind::VerKey,
    Kind::BindVerKey,
    Kind::Sig,
    Kind::BindSig,
    Kind::Epk,
    Kind::Proof,
];
fn len(k: Kind) -> usize {
    match k {
        Kind::Fvk => 96,
        Kind::Ivk | Kind::Sig | Kind::BindSig => 64,
        Kind::Div => 11,
        Kind::Addr => 43,
        Kind::Flags => 1,
        Kind::Proof => 60,
        _ => 32,
    }
}
/// Where field elements, scalars and points sit in an encoding.
fn parts(k: Kind) -> Vec<(usize, u8)> {
    match k {
        Kind::Fvk => vec![(0, b'P'), (32, b'p'), (64, b'q')],
        Kind::Ivk => vec![(32, b'p')],
        Kind::Addr => vec![(11, b'P')],
        Kind::Rho | Kind::Cmx | Kind::Nf | Kind::Anchor | Kind::Node | Kind::NodeJson => vec![(0, b'p')],
        Kind::Rcv | Kind::SignKey | Kind::BindKey => vec![(0, b'q')],
        Kind::Cv | Kind::VerKey | Kind::BindVerKey | Kind::Epk => vec![(0, b'P')],
        Kind::Sig | Kind::BindSig => vec![(0, b'P'), (32, b'q')],
        _ => vec![],
    }
}
/// What the protocol specification accepts.
fn valid(k: Kind, b: &[u8]) -> bool {
    let a32 = |i: usize| -> [u8; 32] { b[i..i + 32].try_into().unwrap() };
    match k {
        Kind::Sk => RSk::from_sk(a32(0)).is_some(),
        Kind::Fvk => RFvk::from_bytes(b.try_into().unwrap()).is_some(),
        Kind::Ivk => RIvk::from_bytes(b.try_into().unwrap()).is_some(),
        Kind::Addr => address_ok(b.try_into().unwrap()),
        Kind::Rho | Kind::Cmx | Kind::Nf | Kind::Anchor | Kind::Node | Kind::NodeJson => fp(&a32(0)).is_some(),
        Kind::Rcv | Kind::SignKey | Kind::BindKey => fq(&a32(0)).is_some(),
        Kind::Cv | Kind::VerKey | Kind::BindVerKey => pt(&a32(0)).is_some(),
        Kind::Epk => pt_ni(&a32(0)).is_some(),
        Kind::Flags => b[0] < 4,
        Kind::Ovk | Kind::Div | Kind::Seed | Kind::Sig | Kind::BindSig | Kind::Proof => true,
    }
}

const RHO: [u8; 32] = [1; 32];

/// Decodes and encodes again with the crate.
fn recode(k: Kind, b: &[u8]) -> Option<Vec<u8>> {
    let a32 = || -> [u8; 32] { b.try_into().unwrap() };
    Some(match k {
        Kind::Sk => Option::<SpendingKey>::from(SpendingKey::from_bytes(a32()))?.to_bytes().to_vec(),
        Kind::Fvk => FullViewingKey::from_bytes(b.try_into().unwrap())?.to_bytes().to_vec(),
        Kind::Ivk => Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(b.try_into().unwrap()))?.to_bytes().to_vec(),
        Kind::Ovk => AsRef::<[u8; 32]>::as_ref(&OutgoingViewingKey::from(a32())).to_vec(),
        Kind::Div => Diversifier::from_bytes(b.try_into().unwrap()).as_array().to_vec(),
        Kind::Addr => Option::<Address>::from(Address::from_raw_address_bytes(b.try_into().unwrap()))?.to_raw_address_bytes().to_vec(),
        Kind::Rho => Option::<Rho>::from(Rho::from_bytes(&a32()))?.to_bytes().to_vec(),
        Kind::Seed => {
            let rho = Option::<Rho>::from(Rho::from_bytes(&RHO))?;
            Option::<RandomSeed>::from(RandomSeed::from_bytes(a32(), &rho))?.as_bytes().to_vec()
        }
        Kind::Cmx => Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(&a32()))?.to_bytes().to_vec(),
        Kind::Nf => Option::<Nullifier>::from(Nullifier::from_bytes(&a32()))?.to_bytes().to_vec(),
        Kind::Anchor => Option::<Anchor>::from(Anchor::from_bytes(a32()))?.to_bytes().to_vec(),
        Kind::Node => Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(&a32()))?.to_bytes().to_vec(),
        Kind::NodeJson => {
            let s = serde_json::to_string(b).unwrap();
            let n: MerkleHashOrchard = serde_json::from_str(&s).ok()?;
            let t = serde_json::to_vec(&n).ok()?;
            serde_json::from_slice::<Vec<u8>>(&t).ok()?
        }
        Kind::Flags => vec![Flags::from_byte(b[0])?.to_byte()],
        Kind::Cv => Option::<ValueCommitment>::from(ValueCommitment::from_bytes(&a32()))?.to_bytes().to_vec(),
        Kind::Rcv => {
            // Has no encoder: what it does (committing) shows what it is.
            let t = Option::<ValueCommitTrapdoor>::from(ValueCommitTrapdoor::from_bytes(a32()))?;
            let v = NoteValue::from_raw(7) - NoteValue::from_raw(0);
            let c = ValueCommitment::derive(v, t).to_bytes();
            let want = fq(&a32()).map(|r| value_commit(7, &r).to_bytes());
            if Some(c) == want {
                b.to_vec()
            } else {
                c.to_vec()
            }
        }
        Kind::SignKey => <[u8; 32]>::from(&SigningKey::<SpendAuth>::try_from(a32()).ok()?).to_vec(),
        Kind::BindKey => <[u8; 32]>::from(SigningKey::<Binding>::try_from(a32()).ok()?).to_vec(),
        Kind::VerKey => <[u8; 32]>::from(&VerificationKey::<SpendAuth>::try_from(a32()).ok()?).to_vec(),
        Kind::BindVerKey => <[u8; 32]>::from(VerificationKey::<Binding>::try_from(a32()).ok()?).to_vec(),
        Kind::Sig => <[u8; 64]>::from(&Signature::<SpendAuth>::from(<[u8; 64]>::try_from(b).unwrap())).to_vec(),
        Kind::BindSig => <[u8; 64]>::from(&Signature::<Binding>::from(<[u8; 64]>::try_from(b).unwrap())).to_vec(),
        Kind::Epk => OrchardDomain::epk_bytes(&OrchardDomain::epk(&EphemeralKeyBytes(a32()))?).0.to_vec(),
        Kind::Proof => Proof::new(b.to_vec()).as_ref().to_vec(),
    })
}

/// A genuine encoding, as the crate itself produces it.
fn genuine(ctx: &mut Ctx, k: Kind, p: &Party) -> Vec<u8> {
    let s = SCOPES[ctx.pick("gen.scope", 2)];
    let addr = p.addr(diversifier_index(ctx), s);
    let fvk = &p.fvk;
    match k {
        Kind::Sk => p.sk.to_bytes().to_vec(),
        Kind::Fvk => fvk.to_bytes().to_vec(),
        Kind::Ivk => fvk.to_ivk(s).to_bytes().to_vec(),
        Kind::Ovk => fvk.to_ovk(s).as_ref().to_vec(),
        Kind::Div => addr.diversifier().as_array().to_vec(),
        Kind::Addr => addr.to_raw_address_bytes().to_vec(),
        Kind::Flags => vec![[Flags::ENABLED, Flags::SPENDS_DISABLED, Flags::OUTPUTS_DISABLED, flags_none()][ctx.pick("gen.flags", 4)].to_byte()],
        Kind::Proof => {
            let n = ctx.pick("gen.len", 61);
            keyed(ctx.u64("gen.proof"), "p", n)
        }
        Kind::Cv => {
            let v = NoteValue::from_raw(any_value(ctx)) - NoteValue::from_raw(any_value(ctx));
            let r = to_fq(&ctx.bytes::<64>("gen.rcv")).to_repr();
            ValueCommitment::derive(v, ValueCommitTrapdoor::from_bytes(r).unwrap()).to_bytes().to_vec()
        }
        Kind::Rcv | Kind::SignKey | Kind::BindKey => to_fq(&ctx.bytes::<64>("gen.fq")).to_repr().to_vec(),
        Kind::VerKey => <[u8; 32]>::from(&VerificationKey::from(&p.ask.randomize(&to_fq(&ctx.bytes::<64>("gen.alpha"))))).to_vec(),
        Kind::BindVerKey => {
            let k = SigningKey::<Binding>::try_from(to_fq(&ctx.bytes::<64>("gen.fq")).to_repr()).unwrap();
            <[u8; 32]>::from(&VerificationKey::from(&k)).to_vec()
        }
        Kind::Sig => {
            let m: [u8; 32] = ctx.bytes("gen.msg");
            let k = p.ask.randomize(&Fq::ONE);
            let sig = k.sign(ctx.rng("gen.sig"), &m);
            <[u8; 64]>::from(&sig).to_vec()
        }
        Kind::BindSig => {
            let m: [u8; 32] = ctx.bytes("gen.msg");
            let k = SigningKey::<Binding>::try_from(to_fq(&ctx.bytes::<64>("gen.fq")).to_repr()).unwrap();
            <[u8; 64]>::from(&k.sign(ctx.rng("gen.sig"), &m)).to_vec()
        }
        Kind::Epk => random_point(ctx, "gen.epk").to_vec(),
        Kind::Seed => ctx.bytes::<32>("gen.seed").to_vec(),
        Kind::Rho | Kind::Cmx | Kind::Nf | Kind::Anchor | Kind::Node | Kind::NodeJson => {
            let note = mint(ctx, &addr, 5);
            match k {
                Kind::Rho => note.rho().to_bytes().to_vec(),
                Kind::Cmx => cmx_of(&note).to_vec(),
                Kind::Nf => note.nullifier(fvk).to_bytes().to_vec(),
                Kind::Anchor if ctx.pick("gen.empty", 3) == 1 => Anchor::empty_tree().to_bytes().to_vec(),
                Kind::Anchor => {
                    let mut t = Sparse::new(None);
                    t.insert(3, cmx_of(&note));
                    merkle_path(3, &t.path(3)).root(ExtractedNoteCommitment::from(note.commitment())).to_bytes().to_vec()
                }
                _ => MerkleHashOrchard::from_cmx(&ExtractedNoteCommitment::from(note.commitment())).to_bytes().to_vec(),
            }
        }
    }
}

fn le_add(b: &[u8; 32], d: i8) -> [u8; 32] {
    let mut o = *b;
    let mut carry = d as i16;
    for x in o.iter_mut() {
        let v = *x as i16 + carry;
        *x = v as u8;
        carry = v >> 8;
        if carry == 0 {
            break;
        }
    }
    o
}

/// What storage or a peer may hand out instead.
fn damage(ctx: &mut Ctx, k: Kind, b: &mut Vec<u8>) -> &'static str {
    let ps = parts(k);
    let n = b.len();
    if n == 0 {
        return "none";
    }
    let how = ctx.pick("damage", 9);
    let name = match how {
        0 => "none",
        1 => {
            b[ctx.pick("damage.at", n)] ^= 1 << ctx.pick("damage.bit", 8);
            "bit"
        }
        2 => {
            let s = ctx.u64("damage.random");
            *b = keyed(s, "r", n);
            "random"
        }
        3 => {
            let v = [0u8, 0xff, 0x80, 1][ctx.pick("damage.fill", 4)];
            b.iter_mut().for_each(|x| *x = v);
            "fill"
        }
        4 => {
            // just the top bits of a part
            let at = if ps.is_empty() { n - 1 } else { ps[ctx.pick("damage.part", ps.len())].0 + 31 };
            b[at] ^= [0x80, 0x40, 0xc0, 0x20][ctx.pick("damage.top", 4)];
            "top-bits"
        }
        _ if !ps.is_empty() => {
            let (at, t) = ps[ctx.pick("damage.part", ps.len())];
            let cur: [u8; 32] = b[at..at + 32].try_into().unwrap();
            let m1 = if t == b'q' { (-Fq::ONE).to_repr() } else { (-Fp::ONE).to_repr() };
            let (x, name): ([u8; 32], _) = match how {
                5 => {
                    let nc = if t == b'q' {
                        noncanonical_fq(&cur)
                    } else if t == b'p' {
                        noncanonical_fp(&cur)
                    } else {
                        noncanonical_pt(&cur)
                    };
                    (nc.unwrap_or(cur), "unreduced")
                }
                6 => (le_add(&m1, [0i8, 1, 2, -1][ctx.pick("damage.near", 4)]), "near-modulus"),
                7 => (le_add(&[0; 32], ctx.pick("damage.small", 4) as i8), "small"),
                _ => {
                    // near the modulus with the sign bit set, or the other field's modulus
                    let mut y = le_add(&m1, ctx.pick("damage.near", 3) as i8);
                    if ctx.pick("damage.other", 2) == 0 {
                        y[31] |= 0x80;
                    } else {
                        y = le_add(&if t == b'q' { (-Fp::ONE).to_repr() } else { (-Fq::ONE).to_repr() }, ctx.pick("damage.near2", 3) as i8);
                    }
                    (y, "boundary")
                }
            };
            b[at..at + 32].copy_from_slice(&x);
            name
        }
        _ => "none",
    };
    ctx.fault(&format!("storage.{name}"));
    name
}

/// A decoded value does what the model says; nothing here may panic.
fn exercise(ctx: &mut Ctx, k: Kind, b: &[u8], p: &Party) -> Res {
    let class = "decoded-unusable";
    match k {
        Kind::Sk => {
            let sk = SpendingKey::from_bytes(b.try_into().unwrap()).unwrap();
            let r = RSk::from_sk(b.try_into().unwrap()).unwrap();
            ctx.check_eq(FullViewingKey::from(&sk).to_bytes().to_vec(), r.fvk.to_bytes().to_vec(), class, "viewing key of a stored spending key")?;
            let a = SpendAuthorizingKey::from(&sk).randomize(&Fq::ONE);
            let m = [3; 32];
            let rk = VerificationKey::from(&a);
            let s = a.sign(ctx.rng("use.sign"), &m);
            ctx.check(spend_sig_ok(&<[u8; 32]>::from(&rk), &m, &<[u8; 64]>::from(&s)), class, || "a restored spending key does not sign".into())?;
            let want = (pt(&r.fvk.ak).unwrap() + bases().spend_auth_g).to_bytes();
            ctx.check_eq(<[u8; 32]>::from(&rk), want, class, "key of a restored signer")?;
        }
        Kind::Fvk => {
            let f = FullViewingKey::from_bytes(b.try_into().unwrap()).unwrap();
            let r = RFvk::from_bytes(b.try_into().unwrap()).unwrap();
            for s in SCOPES {
                ctx.check_eq(f.to_ivk(s).to_bytes().to_vec(), r.ivk(rscope(s)).unwrap().to_bytes().to_vec(), class, "incoming key of a stored viewing key")?;
                ctx.check_eq(f.to_ovk(s).as_ref().to_vec(), r.ovk(rscope(s)).to_vec(), class, "outgoing key of a stored viewing key")?;
            }
            let a = f.address_at(9u32, Scope::External);
            ctx.check_eq(f.scope_for_address(&a), Some(Scope::External), class, "scope of its own address")?;
            let n = mint(ctx, &a, 4);
            ctx.check_eq(Some(n.nullifier(&f).to_bytes()), rnote(&n).nullifier(&r.nk), class, "nullifier under a stored viewing key")?;
            let ak: SpendValidatingKey = f.clone().into();
            let rk = ak.randomize(&Fq::ONE);
            ctx.check_eq(<[u8; 32]>::from(&rk), (pt(&r.ak).unwrap() + bases().spend_auth_g).to_bytes(), class, "randomized key")?;
        }
        Kind::Ivk => {
            let i = IncomingViewingKey::from_bytes(b.try_into().unwrap()).unwrap();
            let r = RIvk::from_bytes(b.try_into().unwrap()).unwrap();
            let a = i.address_at(77u32);
            let mut j = [0; 11];
            j[0] = 77;
            ctx.check_eq(a.to_raw_address_bytes().to_vec(), r.address(&r.diversifier(&j)).to_vec(), class, "address of a stored incoming key")?;
            ctx.check_eq(i.diversifier_index(&a), Some(77u32.into()), class, "index of its own address")?;
            // and it receives
            let n = mint(ctx, &a, 4);
            let act = publish(ctx, &rnote(&n), None);
            let f = look(ctx, 2, &act, &i)?;
            ctx.check_eq(f.map(|x| x.0), Some(rnote(&n)), class, "note received with a stored incoming key")?;
        }
        Kind::Ovk => {
            let a = p.addr(1, Scope::External);
            let n = mint(ctx, &a, 4);
            let o: [u8; 32] = b.try_into().unwrap();
            let act = publish(ctx, &rnote(&n), Some(o));
            let f = look_out(ctx, 0, &act, &o)?;
            ctx.check_eq(f.map(|x| x.0), Some(rnote(&n)), class, "note recovered with a stored outgoing key")?;
        }
        Kind::Div => {
            let d: [u8; 11] = b.try_into().unwrap();
            let a = p.fvk.address(Diversifier::from_bytes(d), Scope::Internal);
            let r = p.r.fvk.ivk(RScope::Internal).unwrap();
            ctx.check_eq(a.to_raw_address_bytes().to_vec(), r.address(&d).to_vec(), class, "address of a stored diversifier")?;
            ctx.check_eq(p.fvk.to_ivk(Scope::Internal).address(Diversifier::from_bytes(d)), a, class, "the same from the incoming key")?;
        }
        Kind::Addr => {
            let a = Address::from_raw_address_bytes(b.try_into().unwrap()).unwrap();
            ctx.check_eq(a.diversifier().as_array().to_vec(), b[..11].to_vec(), class, "diversifier of a stored address")?;
            // Can be paid.
            let mut bl = Builder::new(BundleType::DEFAULT, Anchor::empty_tree());
            ctx.check(bl.add_output(None, a, NoteValue::from_raw(5), None).is_ok(), class, || "a decoded address is refused".into())?;
            let rng = ctx.rng("use.pay");
            ctx.check(matches!(bl.build::<i64>(rng), Ok(Some(_))), class, || "a decoded address cannot be paid".into())?;
        }
        Kind::Rho | Kind::Seed => {
            let rho = if k == Kind::Rho { b.try_into().unwrap() } else { canonical_fp(ctx, "use.rho") };
            let rseed = if k == Kind::Seed { b.try_into().unwrap() } else { ctx.bytes("use.rseed") };
            let r = RNote { addr: p.addr(2, Scope::External).to_raw_address_bytes(), value: any_value(ctx), rho, rseed };
            let n = note_from(&r);
            ctx.check_eq(n.is_some(), r.esk().is_some() && r.cm().is_some(), class, "whether a note's parts make a note")?;
            if let Some(n) = n {
                ctx.check_eq(rnote(&n), r.clone(), class, "parts of a rebuilt note")?;
                ctx.check_eq(Some(cmx_of(&n)), r.cmx(), class, "commitment of a rebuilt note")?;
                ctx.check_eq(Some(n.nullifier(&p.fvk).to_bytes()), r.nullifier(&p.r.fvk.nk), class, "nullifier of a rebuilt note")?;
            }
        }
        Kind::Cmx | Kind::Node => {
            let b32: [u8; 32] = b.try_into().unwrap();
            let c = ExtractedNoteCommitment::from_bytes(&b32).unwrap();
            ctx.check_eq(MerkleHashOrchard::from_cmx(&c).to_bytes(), b32, class, "leaf of a stored commitment")?;
            let pos = position(ctx);
            let mut t = Sparse::new(Some(ctx.u64("use.filler")));
            t.insert(pos, b32);
            let got = merkle_path(pos, &t.path(pos)).root(c).to_bytes();
            ctx.check_eq(got, t.root(), class, "root above a stored commitment")?;
        }
        Kind::Nf => {
            let b32: [u8; 32] = b.try_into().unwrap();
            let n = Nullifier::from_bytes(&b32).unwrap();
            let c = orchard::note_encryption::CompactAction::from_parts(n, ExtractedNoteCommitment::from_bytes(&RHO).unwrap(), EphemeralKeyBytes([0; 32]), [0; 52]);
            ctx.check_eq(c.rho().to_bytes(), b32, class, "identifier from a stored nullifier")?;
        }
        Kind::Anchor => {
            let a = Anchor::from_bytes(b.try_into().unwrap()).unwrap();
            let rng = ctx.rng("use.anchor");
            let bl = Builder::new(BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true }, a);
            match bl.build::<i64>(rng) {
                Ok(Some((x, _))) => ctx.check_eq(x.anchor().to_bytes().to_vec(), b.to_vec(), class, "anchor of a bundle")?,
                _ => return ctx.violation(class, "a decoded anchor cannot be used"),
            }
        }
        Kind::Flags => {
            let f = Flags::from_byte(b[0]).unwrap();
            ctx.check_eq((f.spends_enabled(), f.outputs_enabled()), (b[0] & 1 == 1, b[0] & 2 == 2), class, "decoded flags")?;
            let (s, o) = intent(&f);
            ctx.check_eq((s, o), (b[0] & 1 == 1, b[0] & 2 == 2), class, "decoded flags compared with the constants")?;
        }
        Kind::Cv => {
            let c = ValueCommitment::from_bytes(b.try_into().unwrap()).unwrap();
            let d = ValueCommitment::from_bytes(&random_point(ctx, "use.cv")).unwrap();
            let want = (pt(&c.to_bytes()).unwrap() - pt(&d.to_bytes()).unwrap()).to_bytes();
            ctx.check_eq((c - d).to_bytes(), want, class, "difference of stored commitments")?;
        }
        Kind::SignKey => {
            let k = SigningKey::<SpendAuth>::try_from(<[u8; 32]>::try_from(b).unwrap()).unwrap();
            let vk = VerificationKey::from(&k);
            let want = (bases().spend_auth_g * fq(b.try_into().unwrap()).unwrap()).to_bytes();
            ctx.check_eq(<[u8; 32]>::from(&vk), want, class, "validating key of a stored signing key")?;
            let s = k.sign(ctx.rng("use.sign"), b"m");
            ctx.check(vk.verify(b"m", &s).is_ok(), class, || "a stored signing key does not sign".into())?;
        }
        Kind::BindKey => {
            let k = SigningKey::<Binding>::try_from(<[u8; 32]>::try_from(b).unwrap()).unwrap();
            let s = k.sign(ctx.rng("use.sign"), b"m");
            ctx.check(VerificationKey::from(&k).verify(b"m", &s).is_ok(), class, || "a stored binding key does not sign".into())?;
        }
        Kind::VerKey => {
            let b32: [u8; 32] = b.try_into().unwrap();
            let k = VerificationKey::<SpendAuth>::try_from(b32).unwrap();
            let s: [u8; 64] = ctx.bytes("use.sig");
            ctx.check_eq(k.verify(b"m", &Sig::from(s)).is_ok(), spend_sig_ok(&b32, b"m", &s), class, "verdict of a stored validating key")?;
            let al = to_fq(&ctx.bytes::<64>("use.alpha"));
            let want = (pt(&b32).unwrap() + bases().spend_auth_g * al).to_bytes();
            ctx.check_eq(<[u8; 32]>::from(&k.randomize(&al)), want, class, "randomized stored key")?;
            ctx.check(k == VerificationKey::try_from(b32).unwrap(), class, || "not equal to itself".into())?;
        }
        Kind::BindVerKey => {
            let b32: [u8; 32] = b.try_into().unwrap();
            let k = VerificationKey::<Binding>::try_from(b32).unwrap();
            let s: [u8; 64] = ctx.bytes("use.sig");
            ctx.check_eq(k.verify(b"m", &Signature::from(s)).is_ok(), binding_sig_ok(&b32, b"m", &s), class, "verdict of a stored binding key")?;
        }
        Kind::Sig | Kind::BindSig => {
            let b64: [u8; 64] = b.try_into().unwrap();
            let v = random_point(ctx, "use.vk");
            if k == Kind::Sig {
                let key = VerificationKey::<SpendAuth>::try_from(v).unwrap();
                ctx.check_eq(key.verify(b"m", &Sig::from(b64)).is_ok(), spend_sig_ok(&v, b"m", &b64), class, "verdict on a stored signature")?;
            } else {
                let key = VerificationKey::<Binding>::try_from(v).unwrap();
                ctx.check_eq(key.verify(b"m", &Signature::from(b64)).is_ok(), binding_sig_ok(&v, b"m", &b64), class, "verdict on a stored signature")?;
            }
        }
        Kind::Epk => {
            // as part of an action it can be scanned
            let mut act = craft(ctx, std::slice::from_ref(p)).a;
            act.epk = b.try_into().unwrap();
            let i = p.fvk.to_ivk(Scope::External);
            let want = decrypt(&p.r.fvk.ivk(RScope::External).unwrap().ivk, &act);
            let got = look(ctx, 2, &act, &i)?;
            ctx.check_eq(got.map(|x| x.0), want.map(|x| x.0), class, "scanning with a stored ephemeral key")?;
        }
        Kind::NodeJson | Kind::Rcv | Kind::Proof => {}
    }
    Ok(())
}

/// An action carrying this note, put together by the reference model.
fn publish(ctx: &mut Ctx, n: &RNote, ovk: Option<[u8; 32]>) -> RAction {
    let cv = random_point(ctx, "pub.cv");
    let (epk, enc, out) = encrypt(n, &[7; 512], &cv, ovk.as_ref(), (&[1; 32], &[2; 64])).expect("encrypt");
    RAction { cv, nf: n.rho, rk: random_point(ctx, "pub.rk"), cmx: n.cmx().unwrap(), epk, enc, out }
}

fn encodings(ctx: &mut Ctx) -> Res {
    let p = Party::new(ctx, "p");
    for _ in 0..ctx.range("n.records", 1, 6) {
        let k = ALL[ctx.pick("kind", ALL.len())];
        let g = genuine(ctx, k, &p);
        let what = format!("{k:?}");
        ctx.check(valid(k, &g), "genuine-invalid", || format!("{what}: the crate encodes a value as {}, which is no valid encoding", hex::encode(&g)))?;
        ctx.check_eq(recode(k, &g), Some(g.clone()), "roundtrip", &format!("{what}: a genuine encoding read back and written again"))?;
        exercise(ctx, k, &g, &p)?;
        // What storage gives back after bit rot, or a peer sends instead.
        let mut b = g.clone();
        let how = damage(ctx, k, &mut b);
        let want = valid(k, &b);
        let got = recode(k, &b);
        ctx.log(format!("{what}/{how}: decodes={} valid={want}", got.is_some()));
        ctx.state(&format!("{what}/{how}/{want}"));
        ctx.check_eq(got.is_some(), want, "canonical", &format!("{what}: whether {} ({how}) decodes", hex::encode(&b)))?;
        if let Some(x) = got {
            ctx.check(x == b, "re-encoding", || format!("{what}: {} ({how}) decodes but is written as {}", hex::encode(&b), hex::encode(&x)))?;
            exercise(ctx, k, &b, &p)?;
            ctx.probe("decoded");
        } else {
            ctx.probe("refused");
        }
        if k == Kind::NodeJson {
            // Other shapes are no node at all.
            let n = [0usize, 31, 33, 64][ctx.pick("json.len", 4)];
            let s = serde_json::to_string(&vec![0u8; n]).unwrap();
            ctx.check(serde_json::from_str::<MerkleHashOrchard>(&s).is_err(), "canonical", || format!("a tree node of {n} bytes is accepted"))?;
        }
        if k == Kind::Flags {
            for x in 0..=255u8 {
                ctx.check_eq(Flags::from_byte(x).map(|f| f.to_byte()), if x < 4 { Some(x) } else { None }, "canonical", "flags")?;
            }
        }
    }
    // Equality and order follow the encoding.
    let q = Party::new(ctx, "q");
    let (fp_, fq_) = (p.fvk.clone(), FullViewingKey::from_bytes(&q.r.fvk.to_bytes()));
    let fq_ = match fq_ {
        Some(f) => f,
        None => return ctx.violation("key-lost", "viewing key does not load"),
    };
    ctx.check(fq_ == q.fvk && fp_ != fq_, "equality", || "viewing keys before and after storage".into())?;
    let ip = fp_.to_ivk(Scope::External);
    let iq = IncomingViewingKey::from_bytes(&ip.to_bytes()).unwrap();
    ctx.check(ip == iq && ip.cmp(&iq) == std::cmp::Ordering::Equal && ip != fq_.to_ivk(Scope::External), "equality", || "incoming keys".into())?;
    Ok(())
}

// ------------------------------------------------------------------ a wallet's journal

#[derive(Clone, Debug, PartialEq, Eq)]
struct WNote {
    r: RNote,
    scope: Scope,
    pos: u32,
    memo: [u8; 512],
    nf: [u8; 32],
    spent: bool,
}

/// What the wallet holds in memory: the crate's own values.
struct Mem {
    sk: SpendingKey,
    fvk: FullViewingKey,
    ivks: Vec<(Scope, IncomingViewingKey)>,
    ovks: Vec<OutgoingViewingKey>,
    addrs: Vec<(u32, Scope, Address)>,
    notes: Vec<(Note, WNote)>,
    sent: Vec<WNote>,
    nfs: BTreeMap<[u8; 32], Nullifier>,
    leaves: Vec<MerkleHashOrchard>,
    anchors: Vec<Anchor>,
    height: usize,
    pending: Vec<(Auth, Vec<u8>)>,
}

struct Wallet {
    mem: Mem,
    journal: Vec<u8>,
    synced: usize,
}

const T_SK: u8 = 1;
const T_FVK: u8 = 2;
const T_IVK: u8 = 3;
const T_OVK: u8 = 4;
const T_ADDR: u8 = 5;
const T_NOTE: u8 = 6;
const T_SPENT: u8 = 7;
const T_LEAF: u8 = 8;
const T_ANCHOR: u8 = 9;
const T_HEIGHT: u8 = 10;
const T_TX: u8 = 11;
const T_SENT: u8 = 12;

fn scope_byte(s: Scope) -> u8 {
    match s {
        Scope::External => 0,
        Scope::Internal => 1,
    }
}
fn note_record(n: &Note, w: &WNote) -> Vec<u8> {
    let mut o = vec![scope_byte(w.scope)];
    o.extend_from_slice(&w.pos.to_le_bytes());
    o.extend_from_slice(&n.recipient().to_raw_address_bytes());
    o.extend_from_slice(&n.value().inner().to_le_bytes());
    o.extend_from_slice(&n.rho().to_bytes());
    o.extend_from_slice(n.rseed().as_bytes());
    o.extend_from_slice(&w.memo);
    o.extend_from_slice(&w.nf);
    o
}
fn note_unrecord(b: &[u8]) -> Option<(Note, WNote)> {
    let addr = Option::<Address>::from(Address::from_raw_address_bytes(b[5..48].try_into().unwrap()))?;
    let rho = Option::<Rho>::from(Rho::from_bytes(b[56..88].try_into().unwrap()))?;
    let rseed = Option::<RandomSeed>::from(RandomSeed::from_bytes(b[88..120].try_into().unwrap(), &rho))?;
    let v = NoteValue::from_raw(u64::from_le_bytes(b[48..56].try_into().unwrap()));
    let n = Option::<Note>::from(Note::from_parts(addr, v, rho, rseed))?;
    let nf = Option::<Nullifier>::from(Nullifier::from_bytes(b[632..664].try_into().unwrap()))?;
    let w = WNote {
        r: rnote(&n),
        scope: SCOPES[b[0] as usize & 1],
        pos: u32::from_le_bytes(b[1..5].try_into().unwrap()),
        memo: b[120..632].try_into().unwrap(),
        nf: nf.to_bytes(),
        spent: false,
    };
    Some((n, w))
}

impl Wallet {
    fn create(p: &Party) -> Wallet {
        let mut w = Wallet { mem: Mem::empty(p), journal: vec![], synced: 0 };
        w.put(T_SK, p.sk.to_bytes());
        w.put(T_FVK, &p.fvk.to_bytes());
        for s in SCOPES {
            let i = p.fvk.to_ivk(s);
            let mut b = vec![scope_byte(s)];
            b.extend_from_slice(&i.to_bytes());
            w.put(T_IVK, &b);
            w.mem.ivks.push((s, i));
            let o = p.fvk.to_ovk(s);
            w.put(T_OVK, o.as_ref());
            w.mem.ovks.push(o);
        }
        w.synced = w.journal.len();
        w
    }
    fn put(&mut self, t: u8, b: &[u8]) {
        self.journal.push(t);
        self.journal.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.journal.extend_from_slice(b);
        let c = blake(b"SimJournalCheck_", 8, &[&[t], b]);
        self.journal.extend_from_slice(&c);
    }
    /// Reads back every whole record; a torn tail is dropped.
    fn restore(ctx: &mut Ctx, journal: Vec<u8>) -> Res<Wallet> {
        let mut sk = None;
        let mut fvk = None;
        let mut m: Option<Mem> = None;
        let mut at = 0;
        let bad = |ctx: &mut Ctx, what: &str| ctx.violation::<()>("stored-value-lost", format!("a stored {what} does not load again"));
        while journal.len() >= at + 5 {
            let t = journal[at];
            let l = u32::from_le_bytes(journal[at + 1..at + 5].try_into().unwrap()) as usize;
            if journal.len() < at + 5 + l + 8 {
                break;
            }
            let b = &journal[at + 5..at + 5 + l];
            if blake(b"SimJournalCheck_", 8, &[&[t], b]) != journal[at + 5 + l..at + 13 + l] {
                break;
            }
            match t {
                T_SK => {
                    sk = Option::<SpendingKey>::from(SpendingKey::from_bytes(b.try_into().unwrap()));
                    if sk.is_none() {
                        bad(ctx, "spending key")?;
                    }
                }
                T_FVK => {
                    fvk = FullViewingKey::from_bytes(b.try_into().unwrap());
                    let (Some(sk), Some(fvk)) = (&sk, &fvk) else {
                        bad(ctx, "viewing key")?;
                        unreachable!()
                    };
                    m = Some(Mem::with(*sk, fvk.clone()));
                }
                _ => {
                    let m = m.as_mut().unwrap();
                    match t {
                        T_IVK => match Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(b[1..].try_into().unwrap())) {
                            Some(i) => m.ivks.push((SCOPES[b[0] as usize & 1], i)),
                            None => bad(ctx, "incoming viewing key")?,
                        },
                        T_OVK => m.ovks.push(OutgoingViewingKey::from(<[u8; 32]>::try_from(b).unwrap())),
                        T_ADDR => match Option::<Address>::from(Address::from_raw_address_bytes(b[5..].try_into().unwrap())) {
                            Some(a) => m.addrs.push((u32::from_le_bytes(b[..4].try_into().unwrap()), SCOPES[b[4] as usize & 1], a)),
                            None => bad(ctx, "address")?,
                        },
                        T_NOTE | T_SENT => match note_unrecord(b) {
                            Some(x) if t == T_NOTE => {
                                m.nfs.insert(x.1.nf, Nullifier::from_bytes(&x.1.nf).unwrap());
                                m.notes.push(x)
                            }
                            Some(x) => m.sent.push(x.1),
                            None => bad(ctx, "note")?,
                        },
                        T_SPENT => m.mark_spent(b.try_into().unwrap()),
                        T_LEAF => match Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(b.try_into().unwrap())) {
                            Some(h) => m.leaves.push(h),
                            None => bad(ctx, "tree node")?,
                        },
                        T_ANCHOR => match Option::<Anchor>::from(Anchor::from_bytes(b.try_into().unwrap())) {
                            Some(a) => m.anchors.push(a),
                            None => bad(ctx, "anchor")?,
                        },
                        T_HEIGHT => m.height = u32::from_le_bytes(b.try_into().unwrap()) as usize,
                        T_TX => {
                            let rl = b[0] as usize;
                            match Wire::decode(&b[1 + rl..]).and_then(|w| w.parse()) {
                                Some(a) => m.pending.push((a, b[1..1 + rl].to_vec())),
                                None => bad(ctx, "bundle")?,
                            }
                        }
                        _ => unreachable!(),
                    }
                }
            }
            at += 13 + l;
        }
        let mut journal = journal;
        journal.truncate(at);
        match m {
            Some(mem) => Ok(Wallet { mem, synced: journal.len(), journal }),
            None => ctx.violation("stored-value-lost", "no keys left"),
        }
    }
    /// Scans the next block. Only the wallet's own memory decides what it does.
    fn scan(&mut self, ctx: &mut Ctx, txs: &[Wire]) -> Res {
        for w in txs {
            let Some(b) = w.parse() else { return ctx.violation("chain", "an accepted bundle does not parse") };
            let base = self.mem.leaves.len();
            for (i, a) in b.actions().iter().enumerate() {
                let nf = a.nullifier().to_bytes();
                if self.mem.nfs.contains_key(&nf) {
                    self.mem.mark_spent(nf);
                    self.put(T_SPENT, &nf);
                }
                let leaf = MerkleHashOrchard::from_cmx(a.cmx());
                self.put(T_LEAF, &leaf.to_bytes());
                self.mem.leaves.push(leaf);
                for (s, ivk) in self.mem.ivks.clone() {
                    if let Some((n, _, memo)) = b.decrypt_output_with_key(i, &ivk) {
                        let nf = n.nullifier(&self.mem.fvk);
                        let wn = WNote { r: rnote(&n), scope: s, pos: (base + i) as u32, memo, nf: nf.to_bytes(), spent: false };
                        self.put(T_NOTE, &note_record(&n, &wn));
                        self.mem.nfs.insert(nf.to_bytes(), nf);
                        self.mem.notes.push((n, wn));
                    }
                }
                for o in self.mem.ovks.clone() {
                    if let Some((n, _, memo)) = b.recover_output_with_ovk(i, &o) {
                        let wn = WNote { r: rnote(&n), scope: Scope::External, pos: (base + i) as u32, memo, nf: [0; 32], spent: false };
                        self.put(T_SENT, &note_record(&n, &wn));
                        self.mem.sent.push(wn);
                    }
                }
            }
        }
        self.mem.height += 1;
        let root = self.mem.root();
        self.mem.anchors.push(root);
        self.put(T_ANCHOR, &root.to_bytes());
        self.put(T_HEIGHT, &(self.mem.height as u32).to_le_bytes());
        Ok(())
    }
    fn issue(&mut self, j: u32, s: Scope) {
        let a = self.mem.fvk.address_at(j, s);
        let mut b = j.to_le_bytes().to_vec();
        b.push(scope_byte(s));
        b.extend_from_slice(&a.to_raw_address_bytes());
        self.put(T_ADDR, &b);
        self.mem.addrs.push((j, s, a));
    }
    fn store_tx(&mut self, a: Auth, rest: &[u8]) {
        let mut b = vec![rest.len() as u8];
        b.extend_from_slice(rest);
        b.extend_from_slice(&Wire::of(&a).encode());
        self.put(T_TX, &b);
        self.mem.pending.push((a, rest.to_vec()));
    }
}

impl Mem {
    fn with(sk: SpendingKey, fvk: FullViewingKey) -> Mem {
        Mem {
            sk,
            fvk,
            ivks: vec![],
            ovks: vec![],
            addrs: vec![],
            notes: vec![],
            sent: vec![],
            nfs: BTreeMap::new(),
            leaves: vec![],
            anchors: vec![],
            height: 0,
            pending: vec![],
        }
    }
    fn empty(p: &Party) -> Mem {
        Mem::with(p.sk, p.fvk.clone())
    }
    fn mark_spent(&mut self, nf: [u8; 32]) {
        for (_, w) in self.notes.iter_mut().filter(|(_, w)| w.nf == nf) {
            w.spent = true;
        }
    }
    fn tree(&self, n: usize) -> CommitmentTree<MerkleHashOrchard, 32> {
        let mut t = CommitmentTree::empty();
        for l in &self.leaves[..n] {
            t.append(*l).unwrap();
        }
        t
    }
    fn root(&self) -> Anchor {
        self.tree(self.leaves.len()).root().into()
    }
    fn path(&self, pos: usize) -> MerklePath {
        let mut w = IncrementalWitness::from_tree(self.tree(pos + 1));
        for l in &self.leaves[pos + 1..] {
            w.append(*l).unwrap();
        }
        w.path().expect("path").into()
    }
    /// Everything observable, for comparison.
    fn view(&self) -> (Vec<WNote>, Vec<WNote>, Vec<[u8; 32]>, Vec<(u32, u8, [u8; 43])>, usize) {
        (
            self.notes.iter().map(|n| n.1.clone()).collect(),
            self.sent.clone(),
            self.anchors.iter().map(|a| a.to_bytes()).collect(),
            self.addrs.iter().map(|(j, s, a)| (*j, scope_byte(*s), a.to_raw_address_bytes())).collect(),
            self.height,
        )
    }
    /// Spends the given notes to an address.
    fn spend(&self, which: &[usize], to: Address, value: u64, ovk: bool, rng: rand_chacha::ChaCha12Rng) -> Result<Unauth, String> {
        let mut b = Builder::new(BundleType::DEFAULT, self.root());
        for i in which {
            let (n, w) = &self.notes[*i];
            b.add_spend(self.fvk.clone(), *n, self.path(w.pos as usize)).map_err(|e| format!("add_spend: {e:?}"))?;
        }
        b.add_output(if ovk { Some(self.ovks[0].clone()) } else { None }, to, NoteValue::from_raw(value), None).map_err(|e| format!("add_output: {e:?}"))?;
        match b.build(rng) {
            Ok(Some((b, _))) => Ok(b),
            Ok(None) => Err("no bundle".into()),
            Err(e) => Err(format!("{e:?}")),
        }
    }
}

fn crash(ctx: &mut Ctx, w: Wallet) -> Res<Wallet> {
    let mut j = w.journal;
    let at = match ctx.pick("crash.where", 3) {
        0 => w.synced,
        1 => j.len(),
        _ => w.synced + ctx.pick("crash.byte", j.len() - w.synced + 1),
    };
    if at > w.synced && at < j.len() {
        ctx.fault("disk.torn_write");
    } else if at < j.len() {
        ctx.fault("disk.lost_writes");
    }
    j.truncate(at);
    ctx.fault("crash.restart");
    ctx.log(format!("wallet killed; {at} bytes of its journal survive"));
    Wallet::restore(ctx, j)
}

fn wallet(ctx: &mut Ctx) -> Res {
    let parties = make_parties(ctx, 3);
    let mut ledger = Ledger::new();
    let mut ideal = Ideal::default();
    let mut blocks: Vec<Vec<Wire>> = vec![];
    // The twin has the same disk but is never killed.
    let mut twin = Wallet::create(&parties[0]);
    let mut w = Wallet::create(&parties[0]);
    let steps = ctx.range("steps", 2, if ctx.thorough { 14 } else { 7 });
    for step in 0..steps {
        match ctx.pick("op", 8) {
            0 | 1 => {
                // A block with payments, some to the wallet.
                let n = ctx.range("block.outs", 1, 3);
                let outs: Vec<POut> = (0..n).map(|_| make_out(ctx, &parties, false)).collect();
                let before = ledger.txs.len();
                fund(ctx, &mut ledger, &mut ideal, &parties, outs)?;
                let b: Vec<Wire> = ledger.txs[before..].iter().map(|t| t.0.clone()).collect();
                blocks.push(b);
                ctx.log(format!("block {} with {n} outputs", blocks.len()));
            }
            2 => {
                let j = diversifier_index(ctx);
                let s = SCOPES[ctx.pick("issue.scope", 2)];
                twin.issue(j, s);
                w.issue(j, s);
                w.synced = w.journal.len();
                ctx.log("address issued");
            }
            3 | 4 => {
                // A spend prepared by wallet and twin alike.
                let at = blocks.len();
                sync(ctx, &mut w, &blocks)?;
                sync(ctx, &mut twin, &blocks)?;
                let live: Vec<usize> = (0..w.mem.notes.len()).filter(|i| !w.mem.notes[*i].1.spent).collect();
                let n = 1 + ctx.pick("spend.n", 2);
                let which: Vec<usize> = live.into_iter().take(n).collect();
                if which.is_empty() {
                    continue;
                }
                if ctx.chance("crash.beforespend", 1, 2) {
                    w.synced = w.journal.len();
                    w = crash(ctx, w)?;
                }
                let total: u64 = which.iter().map(|i| w.mem.notes[*i].1.r.value).sum();
                let to = parties[ctx.pick("spend.to", parties.len())].addr(diversifier_index(ctx), Scope::External);
                let ovk = ctx.pick("spend.ovk", 2) == 1;
                let rng = ctx.rng("spend");
                let a = w.mem.spend(&which, to, total, ovk, rng.clone());
                let b = twin.mem.spend(&which, to, total, ovk, rng);
                let (a, b) = match (a, b) {
                    (Ok(a), Ok(b)) => (a, b),
                    (a, b) => return ctx.violation("spend-after-restart", format!("spending at height {at}: wallet {:?}, twin {:?}", a.err(), b.err())),
                };
                ctx.check(ractions(&a) == ractions(&b) && a.value_balance() == b.value_balance() && a.anchor() == b.anchor(), "continues-differently", || {
                    "a wallet restored from its disk builds a different bundle".into()
                })?;
                let rest = format!("tx{step}").into_bytes();
                let msg = sighash(&a, &rest);
                let proven = ideal.prove(ctx, a);
                let ask = SpendAuthorizingKey::from(&w.mem.sk);
                let auth = match proven.apply_signatures(ctx.rng("sign"), msg, &[ask]) {
                    Ok(x) => x,
                    Err(e) => return ctx.violation("spend-after-restart", format!("signing with a restored key: {e:?}")),
                };
                w.store_tx(auth, &rest);
                w.synced = w.journal.len();
                ctx.probe("spend_prepared");
                if ctx.chance("crash.beforesend", 1, 2) {
                    w = crash(ctx, w)?;
                }
                // Whatever is left in memory or on disk is what is broadcast.
                let Some((auth, rest)) = w.mem.pending.last() else { return ctx.violation("stored-value-lost", "the transaction is gone") };
                let wire = Wire::of(auth);
                let v = ledger.judge(&ideal, &wire, rest);
                ctx.check_eq(v, Verdict::Accepted, "spend-after-restart", "verdict on the stored transaction")?;
                let rest = rest.clone();
                ledger.apply(&wire, &rest, &parties);
                blocks.push(vec![wire]);
                ctx.log("spend accepted");
            }
            _ => {
                let upto = ctx.pick("sync.upto", blocks.len() + 1);
                while w.mem.height < upto {
                    let k = w.mem.height;
                    w.scan(ctx, &blocks[k])?;
                    if ctx.chance("fsync", 1, 3) {
                        w.synced = w.journal.len();
                    }
                    if ctx.chance("crash.scanning", 1, 2) {
                        w = crash(ctx, w)?;
                        w = roll_to_block(ctx, w)?;
                    }
                }
                w.synced = w.journal.len();
            }
        }
    }
    if ctx.chance("crash.end", 1, 2) {
        w = crash(ctx, w)?;
        w = roll_to_block(ctx, w)?;
    }
    sync(ctx, &mut w, &blocks)?;
    sync(ctx, &mut twin, &blocks)?;
    ctx.check(w.mem.view() == twin.mem.view(), "continues-differently", || "a wallet that was killed holds something else than one that was not".into())?;
    // Both against the omniscient model.
    let p0: Vec<(RNote, u32, [u8; 32], bool)> =
        ledger.notes.iter().filter(|n| n.owner == 0).map(|n| (n.r.clone(), n.pos as u32, n.nf, n.spent)).collect();
    let mine: Vec<_> = w.mem.notes.iter().map(|(_, n)| (n.r.clone(), n.pos, n.nf, n.spent)).collect();
    ctx.check_eq(mine.len(), p0.len(), "wrong-notes", "number of notes the wallet knows")?;
    ctx.check(mine == p0, "wrong-notes", || "the wallet's notes are not the ones on the chain".into())?;
    let root = ledger.root();
    if w.mem.height > 0 {
        ctx.check_eq(w.mem.root().to_bytes(), root, "wrong-anchor", "anchor of the restored tree")?;
    }
    for (i, n) in w.mem.notes.iter().enumerate() {
        let got = w.mem.path(n.1.pos as usize).root(ExtractedNoteCommitment::from(n.0.commitment())).to_bytes();
        ctx.check_eq(got, root, "wrong-path", "root of a restored note's path")?;
        ctx.check_eq(w.mem.fvk.scope_for_address(&n.0.recipient()), Some(n.1.scope), "wrong-scope", "scope of a restored note's address")?;
        let t = &twin.mem.notes[i].0;
        ctx.check(n.0 == *t && n.0.commitment().to_x() == t.commitment().to_x(), "note-equality", || "a restored note is not equal to the original".into())?;
    }
    for (j, s, a) in &w.mem.addrs {
        ctx.check_eq(w.mem.ivks.iter().find(|x| x.0 == *s).unwrap().1.diversifier_index(a), Some((*j).into()), "wrong-index", "index of a restored address")?;
    }
    ctx.state(&format!("wallet/{}/{}", blocks.len(), mine.len()));
    Ok(())
}
trait X {
    fn to_x(&self) -> [u8; 32];
}
impl X for orchard::note::NoteCommitment {
    fn to_x(&self) -> [u8; 32] {
        ExtractedNoteCommitment::from(self.clone()).to_bytes()
    }
}
/// A block only half in the journal is scanned again from its start.
fn roll_to_block(ctx: &mut Ctx, w: Wallet) -> Res<Wallet> {
    // Drop everything after the last record that closes a block, keys and addresses aside
    // (those are synced as soon as they are written).
    let j = &w.journal;
    let mut at = 0;
    let mut keep = 0;
    while at + 5 <= j.len() {
        let l = u32::from_le_bytes(j[at + 1..at + 5].try_into().unwrap()) as usize;
        let t = j[at];
        at += 13 + l;
        if matches!(t, T_HEIGHT | T_ADDR | T_TX | T_SK | T_FVK | T_IVK | T_OVK) {
            keep = at;
        }
    }
    let mut j = w.journal;
    if keep < j.len() {
        ctx.probe("half_block_dropped");
        j.truncate(keep);
    }
    Wallet::restore(ctx, j)
}
fn sync(ctx: &mut Ctx, w: &mut Wallet, blocks: &[Vec<Wire>]) -> Res {
    while w.mem.height < blocks.len() {
        let k = w.mem.height;
        w.scan(ctx, &blocks[k])?;
    }
    Ok(())
}

struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        if ctx.pick("part", 3) == 1 {
            wallet(ctx)
        } else {
            encodings(ctx)
        }
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C09",
        scenario: Box::new(S),
        quick_runs: 2_000,
        thorough_runs: 40_000,
        rule: "Two thirds of the runs store 1-6 values of 24 kinds, damage what was stored (bits, unreduced and boundary field elements, fills, noise) and compare acceptance, re-encoding and behaviour with a reference; one third run a wallet with a journal that is killed at arbitrary bytes while receiving, issuing addresses and spending, next to a twin that is never killed.",
        real: &["every public encoder and decoder of orchard", "orchard::builder", "orchard::keys", "orchard::note", "orchard::tree", "incrementalmerkletree"],
        stub: &["disk", "ledger", "proof system (ideal functionality)", "wallet's journal format"],
        assumptions: &["reference encodings on pasta_curves", "storage detects torn records (checksums) but hands out what was written"],
    }
}
