//! Shared pieces of the simulated deployment: keys, notes, bundles on the wire, the stub
//! proof system, and nodes' validation pipelines.
use std::collections::BTreeMap;

use ff::PrimeField;
use nonempty::NonEmpty;
use orchard::builder::{BundleMetadata, InProgress, PartiallyAuthorized, Unauthorized, UnauthorizedBundle, Unproven};
use orchard::bundle::{Authorization, Authorized, Bundle, Flags};
use orchard::keys::{FullViewingKey, IncomingViewingKey, Scope, SpendAuthorizingKey, SpendingKey};
use orchard::note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho, TransmittedNoteCiphertext};
use orchard::note_encryption::CompactAction;
use orchard::primitives::redpallas::{self, SpendAuth};
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::value::{NoteValue, ValueCommitment};
use orchard::{Action, Address, Anchor, Note, Proof};

use crate::ctx::*;
use crate::refm::*;

pub type Unauth = UnauthorizedBundle<i64>;
pub type Proven = Bundle<InProgress<Proof, Unauthorized>, i64>;
pub type Partial = Bundle<InProgress<Proof, PartiallyAuthorized>, i64>;
pub type Auth = Bundle<Authorized, i64>;
pub type Sig = redpallas::Signature<SpendAuth>;

// ---------------------------------------------------------------- keys and notes

#[derive(Clone)]
pub struct Party {
    pub sk: SpendingKey,
    pub r: RSk,
    pub fvk: FullViewingKey,
    pub ask: SpendAuthorizingKey,
}
impl Party {
    pub fn new(ctx: &mut Ctx, label: &str) -> Party {
        loop {
            let b: [u8; 32] = ctx.bytes(&format!("sk:{label}"));
            if let (Some(sk), Some(r)) = (Option::<SpendingKey>::from(SpendingKey::from_bytes(b)), RSk::from_sk(b)) {
                return Party { sk, r, fvk: FullViewingKey::from(&sk), ask: SpendAuthorizingKey::from(&sk) };
            }
        }
    }
    pub fn addr(&self, j: u32, scope: Scope) -> Address {
        self.fvk.address_at(j, scope)
    }
    pub fn ivks(&self) -> Vec<IncomingViewingKey> {
        vec![self.fvk.to_ivk(Scope::External), self.fvk.to_ivk(Scope::Internal)]
    }
}
pub fn rscope(s: Scope) -> RScope {
    match s {
        Scope::External => RScope::External,
        Scope::Internal => RScope::Internal,
    }
}
pub const SCOPES: [Scope; 2] = [Scope::External, Scope::Internal];

pub fn canonical_fp(ctx: &mut Ctx, label: &str) -> [u8; 32] {
    to_fp(&ctx.bytes::<64>(label)).to_repr()
}

pub fn note_from(r: &RNote) -> Option<Note> {
    let addr = Option::from(Address::from_raw_address_bytes(&r.addr))?;
    let rho = Option::from(Rho::from_bytes(&r.rho))?;
    let rseed = Option::from(RandomSeed::from_bytes(r.rseed, &rho))?;
    Option::from(Note::from_parts(addr, NoteValue::from_raw(r.value), rho, rseed))
}
pub fn rnote(n: &Note) -> RNote {
    RNote {
        addr: n.recipient().to_raw_address_bytes(),
        value: n.value().inner(),
        rho: n.rho().to_bytes(),
        rseed: *n.rseed().as_bytes(),
    }
}
/// A note that could have been received earlier.
pub fn mint(ctx: &mut Ctx, addr: &Address, value: u64) -> Note {
    loop {
        let r = RNote {
            addr: addr.to_raw_address_bytes(),
            value,
            rho: canonical_fp(ctx, "mint.rho"),
            rseed: ctx.bytes("mint.rseed"),
        };
        if let Some(n) = note_from(&r) {
            return n;
        }
    }
}
pub fn cmx_of(n: &Note) -> [u8; 32] {
    ExtractedNoteCommitment::from(n.commitment()).to_bytes()
}

pub fn merkle_path(pos: u32, sib: &[[u8; 32]; 32]) -> MerklePath {
    MerklePath::from_parts(pos, sib.map(|b| MerkleHashOrchard::from_bytes(&b).unwrap()))
}
pub fn anchor(b: &[u8; 32]) -> Anchor {
    Anchor::from_bytes(*b).unwrap()
}

// ---------------------------------------------------------------- bundles as data

pub fn raction<T>(a: &Action<T>) -> RAction {
    RAction {
        cv: a.cv_net().to_bytes(),
        nf: a.nullifier().to_bytes(),
        rk: <[u8; 32]>::from(a.rk()),
        cmx: a.cmx().to_bytes(),
        epk: a.encrypted_note().epk_bytes,
        enc: a.encrypted_note().enc_ciphertext.to_vec(),
        out: a.encrypted_note().out_ciphertext.to_vec(),
    }
}
pub fn ractions<A: Authorization, V>(b: &Bundle<A, V>) -> Vec<RAction> {
    b.actions().iter().map(raction).collect()
}
pub fn action_from<T>(r: &RAction, auth: T) -> Option<Action<T>> {
    let nf = Option::from(Nullifier::from_bytes(&r.nf))?;
    let rk = redpallas::VerificationKey::<SpendAuth>::try_from(r.rk).ok()?;
    let cmx = Option::from(ExtractedNoteCommitment::from_bytes(&r.cmx))?;
    let cv = Option::from(ValueCommitment::from_bytes(&r.cv))?;
    let enc = TransmittedNoteCiphertext {
        epk_bytes: r.epk,
        enc_ciphertext: r.enc[..].try_into().ok()?,
        out_ciphertext: r.out[..].try_into().ok()?,
    };
    Some(Action::from_parts(nf, rk, cmx, enc, cv, auth))
}
pub fn compact_from(r: &RAction) -> Option<CompactAction> {
    Some(CompactAction::from_parts(
        Option::from(Nullifier::from_bytes(&r.nf))?,
        Option::from(ExtractedNoteCommitment::from_bytes(&r.cmx))?,
        zcash_note_encryption::EphemeralKeyBytes(r.epk),
        r.enc[..52].try_into().unwrap(),
    ))
}

/// An authorized bundle as plain data: what travels between nodes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wire {
    pub actions: Vec<RAction>,
    pub flags: u8,
    pub balance: i64,
    pub anchor: [u8; 32],
    pub proof: Vec<u8>,
    pub sigs: Vec<[u8; 64]>,
    pub binding: [u8; 64],
}
impl Wire {
    pub fn of(b: &Auth) -> Wire {
        Wire {
            actions: ractions(b),
            flags: b.flags().to_byte(),
            balance: *b.value_balance(),
            anchor: b.anchor().to_bytes(),
            proof: b.authorization().proof().as_ref().to_vec(),
            sigs: b.actions().iter().map(|a| <[u8; 64]>::from(a.authorization())).collect(),
            binding: <[u8; 64]>::from(b.authorization().binding_signature()),
        }
    }
    /// Parsing, with every canonicality rule the crate's types enforce.
    pub fn parse(&self) -> Option<Auth> {
        if self.sigs.len() != self.actions.len() {
            return None;
        }
        let actions = self
            .actions
            .iter()
            .zip(&self.sigs)
            .map(|(a, s)| action_from(a, Sig::from(*s)))
            .collect::<Option<Vec<_>>>()?;
        Some(Bundle::from_parts(
            NonEmpty::from_vec(actions)?,
            Flags::from_byte(self.flags)?,
            self.balance,
            Option::from(Anchor::from_bytes(self.anchor))?,
            Authorized::from_parts(Proof::new(self.proof.clone()), redpallas::Signature::from(self.binding)),
        ))
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.actions.len() as u8];
        for a in &self.actions {
            for p in [&a.cv[..], &a.nf, &a.rk, &a.cmx, &a.epk, &a.enc, &a.out] {
                o.extend_from_slice(p);
            }
        }
        o.push(self.flags);
        o.extend_from_slice(&self.balance.to_le_bytes());
        o.extend_from_slice(&self.anchor);
        o.extend_from_slice(&(self.proof.len() as u32).to_le_bytes());
        o.extend_from_slice(&self.proof);
        for s in &self.sigs {
            o.extend_from_slice(s);
        }
        o.extend_from_slice(&self.binding);
        o
    }
    pub fn decode(mut b: &[u8]) -> Option<Wire> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if b.len() < n {
                return None;
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Some(x)
        }
        fn arr<const N: usize>(b: &mut &[u8]) -> Option<[u8; N]> {
            take(b, N)?.try_into().ok()
        }
        let n = take(&mut b, 1)?[0] as usize;
        let mut actions = vec![];
        for _ in 0..n {
            actions.push(RAction {
                cv: arr(&mut b)?,
                nf: arr(&mut b)?,
                rk: arr(&mut b)?,
                cmx: arr(&mut b)?,
                epk: arr(&mut b)?,
                enc: take(&mut b, 580)?.to_vec(),
                out: take(&mut b, 80)?.to_vec(),
            });
        }
        let flags = take(&mut b, 1)?[0];
        let balance = i64::from_le_bytes(arr(&mut b)?);
        let anchor = arr(&mut b)?;
        let pl = u32::from_le_bytes(arr(&mut b)?) as usize;
        let proof = take(&mut b, pl)?.to_vec();
        let mut sigs = vec![];
        for _ in 0..n {
            sigs.push(arr(&mut b)?);
        }
        let binding = arr(&mut b)?;
        if !b.is_empty() {
            return None;
        }
        Some(Wire { actions, flags, balance, anchor, proof, sigs, binding })
    }
    /// Expected proof length for this many actions (ZIP 225).
    pub fn canonical_proof_len(n: usize) -> usize {
        2720 + 2272 * n
    }
    pub fn ref_txid(&self) -> [u8; 32] {
        txid_digest(&self.actions, self.flags, self.balance, &self.anchor)
    }
    pub fn ref_auth(&self) -> [u8; 32] {
        auth_digest(&self.proof, &self.sigs, &self.binding)
    }
    /// Reference verdict on the signatures over `msg`.
    pub fn ref_sigs_ok(&self, msg: &[u8; 32]) -> bool {
        let cvs: Vec<_> = self.actions.iter().map(|a| a.cv).collect();
        let Some(bvk) = bvk(&cvs, self.balance) else { return false };
        self.actions.iter().zip(&self.sigs).all(|(a, s)| spend_sig_ok(&a.rk, msg, s)) && binding_sig_ok(&bvk, msg, &self.binding)
    }
}

/// The transaction's signature hash: a stand-in for ZIP 244's, over the bundle commitment
/// and whatever else the transaction contains.
pub fn sighash<A: Authorization>(b: &Bundle<A, i64>, rest_of_tx: &[u8]) -> [u8; 32] {
    let c: [u8; 32] = b.commitment().into();
    sighash_of(&c, rest_of_tx)
}
pub fn sighash_of(commitment: &[u8; 32], rest_of_tx: &[u8]) -> [u8; 32] {
    blake(b"SimTxSignatureHs", 32, &[commitment, rest_of_tx]).try_into().unwrap()
}

// ---------------------------------------------------------------- stub proof system

/// The ideal proof functionality: a proof is a random string that is remembered together
/// with the public inputs it was made for. Public inputs come from the code under test.
#[derive(Default, Clone)]
pub struct Ideal {
    known: BTreeMap<Vec<u8>, Vec<Vec<Vec<Fp>>>>,
}

pub fn public_inputs<A: Authorization, V>(b: &Bundle<A, V>) -> Vec<Vec<Vec<Fp>>> {
    b.actions().iter().map(|a| a.to_instance(*b.flags(), *b.anchor()).sim_public_inputs()).collect()
}

impl Ideal {
    pub fn prove(&mut self, ctx: &mut Ctx, b: Unauth) -> Proven {
        let len = Wire::canonical_proof_len(b.actions().len());
        let seed = ctx.u64("ideal.tag");
        let tag = keyed(seed, "ideal-proof", len);
        self.known.insert(tag.clone(), public_inputs(&b));
        attach_proof(b, tag)
    }
    /// Proving after signing has begun.
    pub fn prove_partial(
        &mut self,
        ctx: &mut Ctx,
        b: Bundle<InProgress<Unproven, orchard::builder::PartiallyAuthorized>, i64>,
    ) -> Partial {
        let len = Wire::canonical_proof_len(b.actions().len());
        let seed = ctx.u64("ideal.tag");
        let tag = keyed(seed, "ideal-proof", len);
        self.known.insert(tag.clone(), public_inputs(&b));
        b.map_authorization(&mut (), |_, _, a| a, |_, auth| auth.sim_with_proof(Proof::new(tag)))
    }
    pub fn verify<V>(&self, b: &Bundle<Authorized, V>) -> bool {
        self.known.get(b.authorization().proof().as_ref()) == Some(&public_inputs(b))
    }
}
pub fn attach_proof(b: Unauth, bytes: Vec<u8>) -> Proven {
    b.map_authorization(
        &mut (),
        |_, _, a| a,
        |_, auth: InProgress<Unproven, Unauthorized>| auth.sim_with_proof(Proof::new(bytes)),
    )
}

/// What a full node checks about a bundle apart from the proof.
pub fn signatures_ok(b: &Auth, msg: &[u8; 32]) -> bool {
    b.actions().iter().all(|a| a.rk().verify(msg, a.authorization()).is_ok())
        && b.binding_validating_key().verify(msg, b.authorization().binding_signature()).is_ok()
}

// ---------------------------------------------------------------- making bundles

pub struct SpendPlan {
    pub party: usize,
    pub note: Note,
    pub pos: u32,
}
pub struct OutPlan {
    pub ovk: Option<orchard::keys::OutgoingViewingKey>,
    pub ovk_bytes: Option<[u8; 32]>,
    pub addr: Address,
    pub value: u64,
    pub memo: Option<[u8; 512]>,
}
pub struct Built {
    pub bundle: Unauth,
    pub meta: BundleMetadata,
}

pub fn memo(ctx: &mut Ctx) -> Option<[u8; 512]> {
    match ctx.pick("memo.kind", 3) {
        0 => None,
        1 => Some([0; 512]),
        _ => {
            let s = ctx.u64("memo");
            Some(keyed(s, "memo", 512).try_into().unwrap())
        }
    }
}
/// What an absent memo means on the wire.
pub fn memo_bytes(m: &Option<[u8; 512]>) -> [u8; 512] {
    m.unwrap_or_else(|| {
        let mut x = [0; 512];
        x[0] = 0xf6;
        x
    })
}
