//! The reference model: what Orchard's values must be, written from the protocol
//! specification on top of external primitives only (curve arithmetic, BLAKE2b, Sinsemilla,
//! Poseidon, FF1, ChaCha20Poly1305, RedDSA). Nothing in here calls into /repo.
use std::collections::BTreeMap;

use aes::Aes256;
use blake2b_simd::Params;
use chacha20poly1305::{aead::AeadInPlace, ChaCha20Poly1305, KeyInit};
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives as poseidon;
use halo2_gadgets::sinsemilla::primitives::{CommitDomain, HashDomain};
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;

pub type Fp = pallas::Base;
pub type Fq = pallas::Scalar;
pub type Pt = pallas::Point;

pub fn blake(person: &[u8; 16], n: usize, parts: &[&[u8]]) -> Vec<u8> {
    let mut s = Params::new().hash_length(n).personal(person).to_state();
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().to_vec()
}
fn blake32(person: &[u8; 16], parts: &[&[u8]]) -> [u8; 32] {
    blake(person, 32, parts).try_into().unwrap()
}

pub fn prf_expand(key: &[u8], dom: u8, parts: &[&[u8]]) -> [u8; 64] {
    let mut all: Vec<&[u8]> = vec![key];
    let d = [dom];
    all.push(&d);
    all.extend_from_slice(parts);
    blake(b"Zcash_ExpandSeed", 64, &all).try_into().unwrap()
}

pub fn fp(b: &[u8; 32]) -> Option<Fp> {
    Option::from(Fp::from_repr(*b))
}
pub fn fq(b: &[u8; 32]) -> Option<Fq> {
    Option::from(Fq::from_repr(*b))
}
pub fn pt(b: &[u8; 32]) -> Option<Pt> {
    Option::from(Pt::from_bytes(b))
}
/// A point that is not the identity.
pub fn pt_ni(b: &[u8; 32]) -> Option<Pt> {
    pt(b).filter(|p| !bool::from(p.is_identity()))
}
pub fn to_fp(b: &[u8; 64]) -> Fp {
    Fp::from_uniform_bytes(b)
}
pub fn to_fq(b: &[u8; 64]) -> Fq {
    Fq::from_uniform_bytes(b)
}
pub fn extract(p: &Pt) -> Fp {
    Option::<Fp>::from(p.to_affine().coordinates().map(|c| *c.x())).unwrap_or(Fp::zero())
}
fn bits255(x: &Fp) -> Vec<bool> {
    x.to_le_bits().iter().by_vals().take(255).collect()
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1)).collect()
}
/// Pallas' base field is smaller than its scalar field.
pub fn mod_r(x: &Fp) -> Fq {
    Fq::from_repr(x.to_repr()).unwrap()
}

thread_local! {
    static BASES: Bases = Bases {
        spend_auth_g: Pt::hash_to_curve("z.cash:Orchard")(b"G"),
        nf_k: Pt::hash_to_curve("z.cash:Orchard")(b"K"),
        cv_v: Pt::hash_to_curve("z.cash:Orchard-cv")(b"v"),
        cv_r: Pt::hash_to_curve("z.cash:Orchard-cv")(b"r"),
    };
}
#[derive(Clone, Copy)]
pub struct Bases {
    pub spend_auth_g: Pt,
    pub nf_k: Pt,
    pub cv_v: Pt,
    pub cv_r: Pt,
}
pub fn bases() -> Bases {
    BASES.with(|b| *b)
}

// ---------------------------------------------------------------- keys

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RScope {
    External,
    Internal,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RFvk {
    pub ak: [u8; 32],
    pub nk: Fp,
    pub rivk: Fq,
}

#[derive(Clone, Debug)]
pub struct RSk {
    pub sk: [u8; 32],
    pub ask: Fq,
    pub fvk: RFvk,
}

pub fn commit_ivk(ak_x: &Fp, nk: &Fp, rivk: &Fq) -> Option<Fp> {
    let d = CommitDomain::new("z.cash:Orchard-CommitIvk");
    let mut m = bits255(ak_x);
    m.extend(bits255(nk));
    Option::<Fp>::from(d.short_commit(m.into_iter(), rivk)).filter(|x| !bool::from(x.is_zero()))
}

impl RSk {
    pub fn from_sk(sk: [u8; 32]) -> Option<Self> {
        let mut ask = to_fq(&prf_expand(&sk, 0x06, &[]));
        if bool::from(ask.is_zero()) {
            return None;
        }
        let mut ak = (bases().spend_auth_g * ask).to_bytes();
        if ak[31] >> 7 == 1 {
            ask = -ask;
            ak = (bases().spend_auth_g * ask).to_bytes();
        }
        let nk = to_fp(&prf_expand(&sk, 0x07, &[]));
        let rivk = to_fq(&prf_expand(&sk, 0x08, &[]));
        let fvk = RFvk { ak, nk, rivk };
        fvk.ivk(RScope::External)?;
        fvk.ivk(RScope::Internal)?;
        Some(RSk { sk, ask, fvk })
    }

    pub fn from_seed(seed: &[u8], coin: u32, account: u32) -> Option<Self> {
        let i = blake(b"ZcashIP32Orchard", 64, &[seed]);
        let mut sk: [u8; 32] = i[..32].try_into().unwrap();
        let mut c: [u8; 32] = i[32..].try_into().unwrap();
        RSk::from_sk(sk)?;
        for idx in [32u32, coin, account] {
            let i = prf_expand(&c, 0x81, &[&sk, &(idx | (1 << 31)).to_le_bytes()]);
            sk = i[..32].try_into().unwrap();
            c = i[32..].try_into().unwrap();
            RSk::from_sk(sk)?;
        }
        RSk::from_sk(sk)
    }
}

impl RFvk {
    pub fn to_bytes(&self) -> [u8; 96] {
        let mut o = [0; 96];
        o[..32].copy_from_slice(&self.ak);
        o[32..64].copy_from_slice(&self.nk.to_repr());
        o[64..].copy_from_slice(&self.rivk.to_repr());
        o
    }
    pub fn from_bytes(b: &[u8; 96]) -> Option<Self> {
        let ak: [u8; 32] = b[..32].try_into().unwrap();
        if ak[31] >> 7 == 1 {
            return None;
        }
        pt_ni(&ak)?;
        let nk = fp(b[32..64].try_into().unwrap())?;
        let rivk = fq(b[64..].try_into().unwrap())?;
        let f = RFvk { ak, nk, rivk };
        f.ivk(RScope::External)?;
        f.ivk(RScope::Internal)?;
        Some(f)
    }
    fn scoped(&self, s: RScope) -> RFvk {
        match s {
            RScope::External => self.clone(),
            RScope::Internal => {
                let r = prf_expand(&self.rivk.to_repr(), 0x83, &[&self.ak, &self.nk.to_repr()]);
                RFvk { ak: self.ak, nk: self.nk, rivk: to_fq(&r) }
            }
        }
    }
    fn dk_ovk(&self, s: RScope) -> ([u8; 32], [u8; 32]) {
        let f = self.scoped(s);
        let r = prf_expand(&f.rivk.to_repr(), 0x82, &[&f.ak, &f.nk.to_repr()]);
        (r[..32].try_into().unwrap(), r[32..].try_into().unwrap())
    }
    pub fn ovk(&self, s: RScope) -> [u8; 32] {
        self.dk_ovk(s).1
    }
    /// (dk, ivk)
    pub fn ivk(&self, s: RScope) -> Option<RIvk> {
        let f = self.scoped(s);
        let ak = extract(&pt(&f.ak)?);
        let ivk = commit_ivk(&ak, &f.nk, &f.rivk)?;
        Some(RIvk { dk: self.dk_ovk(s).0, ivk })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RIvk {
    pub dk: [u8; 32],
    pub ivk: Fp,
}
impl RIvk {
    pub fn to_bytes(&self) -> [u8; 64] {
        let mut o = [0; 64];
        o[..32].copy_from_slice(&self.dk);
        o[32..].copy_from_slice(&self.ivk.to_repr());
        o
    }
    pub fn from_bytes(b: &[u8; 64]) -> Option<Self> {
        let ivk = fp(b[32..].try_into().unwrap()).filter(|x| !bool::from(x.is_zero()))?;
        Some(RIvk { dk: b[..32].try_into().unwrap(), ivk })
    }
    pub fn diversifier(&self, j: &[u8; 11]) -> [u8; 11] {
        let ff = FF1::<Aes256>::new(&self.dk, 2).unwrap();
        ff.encrypt(&[], &BinaryNumeralString::from_bytes_le(j)).unwrap().to_bytes_le().try_into().unwrap()
    }
    pub fn index(&self, d: &[u8; 11]) -> [u8; 11] {
        let ff = FF1::<Aes256>::new(&self.dk, 2).unwrap();
        ff.decrypt(&[], &BinaryNumeralString::from_bytes_le(d)).unwrap().to_bytes_le().try_into().unwrap()
    }
    pub fn address(&self, d: &[u8; 11]) -> [u8; 43] {
        let mut o = [0; 43];
        o[..11].copy_from_slice(d);
        o[11..].copy_from_slice(&(g_d(d) * mod_r(&self.ivk)).to_bytes());
        o
    }
    pub fn owns(&self, addr: &[u8; 43]) -> bool {
        let d: [u8; 11] = addr[..11].try_into().unwrap();
        self.address(&d) == *addr
    }
}

pub fn g_d(d: &[u8; 11]) -> Pt {
    let h = Pt::hash_to_curve("z.cash:Orchard-gd");
    let p = h(d);
    if bool::from(p.is_identity()) {
        h(&[])
    } else {
        p
    }
}

pub fn address_ok(addr: &[u8; 43]) -> bool {
    pt_ni(addr[11..].try_into().unwrap()).is_some()
}

// ---------------------------------------------------------------- notes

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RNote {
    pub addr: [u8; 43],
    pub value: u64,
    pub rho: [u8; 32],
    pub rseed: [u8; 32],
}

impl RNote {
    pub fn d(&self) -> [u8; 11] {
        self.addr[..11].try_into().unwrap()
    }
    pub fn pk_d(&self) -> [u8; 32] {
        self.addr[11..].try_into().unwrap()
    }
    pub fn esk(&self) -> Option<Fq> {
        let e = to_fq(&prf_expand(&self.rseed, 0x04, &[&self.rho]));
        if bool::from(e.is_zero()) {
            None
        } else {
            Some(e)
        }
    }
    pub fn psi(&self) -> Fp {
        to_fp(&prf_expand(&self.rseed, 0x09, &[&self.rho]))
    }
    pub fn rcm(&self) -> Fq {
        to_fq(&prf_expand(&self.rseed, 0x05, &[&self.rho]))
    }
    pub fn cm(&self) -> Option<Pt> {
        let dom = CommitDomain::new("z.cash:Orchard-NoteCommit");
        let mut m = bits_of(&g_d(&self.d()).to_bytes());
        m.extend(bits_of(&self.pk_d()));
        m.extend(bits_of(&self.value.to_le_bytes()));
        m.extend(bits255(&fp(&self.rho)?));
        m.extend(bits255(&self.psi()));
        Option::from(dom.commit(m.into_iter(), &self.rcm()))
    }
    pub fn cmx(&self) -> Option<[u8; 32]> {
        self.cm().map(|c| extract(&c).to_repr())
    }
    pub fn nullifier(&self, nk: &Fp) -> Option<[u8; 32]> {
        let cm = self.cm()?;
        let rho = fp(&self.rho)?;
        let prf = poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init().hash([*nk, rho]);
        Some(extract(&(bases().nf_k * mod_r(&(prf + self.psi())) + cm)).to_repr())
    }
    pub fn epk(&self) -> Option<[u8; 32]> {
        Some((g_d(&self.d()) * self.esk()?).to_bytes())
    }
    pub fn plaintext(&self, lead: u8, memo: &[u8; 512]) -> [u8; 564] {
        let mut p = [0; 564];
        p[0] = lead;
        p[1..12].copy_from_slice(&self.d());
        p[12..20].copy_from_slice(&self.value.to_le_bytes());
        p[20..52].copy_from_slice(&self.rseed);
        p[52..].copy_from_slice(memo);
        p
    }
}

pub fn kdf(shared: &Pt, epk: &[u8; 32]) -> [u8; 32] {
    blake32(b"Zcash_OrchardKDF", &[&shared.to_bytes(), epk])
}
pub fn ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    blake32(b"Zcash_Orchardock", &[ovk, cv, cmx, epk])
}
pub fn aead_seal(key: &[u8; 32], pt: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305::new(key.into());
    let mut b = pt.to_vec();
    let tag = c.encrypt_in_place_detached(&[0u8; 12].into(), &[], &mut b).unwrap();
    b.extend_from_slice(&tag);
    b
}
pub fn aead_open(key: &[u8; 32], ct: &[u8]) -> Option<Vec<u8>> {
    let c = ChaCha20Poly1305::new(key.into());
    let n = ct.len() - 16;
    let mut b = ct[..n].to_vec();
    c.decrypt_in_place_detached(&[0u8; 12].into(), &[], &mut b, ct[n..].into()).ok()?;
    Some(b)
}
/// The unauthenticated prefix of the note plaintext, for light clients.
pub fn stream_open_compact(key: &[u8; 32], ct: &[u8; 52]) -> [u8; 52] {
    use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
    let mut b = *ct;
    let mut c = chacha20::ChaCha20::new(key.into(), &[0u8; 12].into());
    c.seek(64u64);
    c.apply_keystream(&mut b);
    b
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RAction {
    pub cv: [u8; 32],
    pub nf: [u8; 32],
    pub rk: [u8; 32],
    pub cmx: [u8; 32],
    pub epk: [u8; 32],
    pub enc: Vec<u8>,
    pub out: Vec<u8>,
}

/// Checks common to every decryption path: the derived commitment and ephemeral key.
fn note_valid(n: &RNote, a: &RAction) -> bool {
    n.cmx() == Some(a.cmx) && n.epk() == Some(a.epk)
}

fn parse_plain(p: &[u8], rho: &[u8; 32], pk_d: impl FnOnce(&[u8; 11]) -> [u8; 32]) -> Option<RNote> {
    if p[0] != 2 {
        return None;
    }
    let d: [u8; 11] = p[1..12].try_into().unwrap();
    let mut addr = [0; 43];
    addr[..11].copy_from_slice(&d);
    addr[11..].copy_from_slice(&pk_d(&d));
    let n = RNote {
        addr,
        value: u64::from_le_bytes(p[12..20].try_into().unwrap()),
        rho: *rho,
        rseed: p[20..52].try_into().unwrap(),
    };
    n.esk()?;
    n.cm()?;
    Some(n)
}

pub fn decrypt(ivk: &Fp, a: &RAction) -> Option<(RNote, [u8; 512])> {
    let epk = pt_ni(&a.epk)?;
    let k = kdf(&(epk * mod_r(ivk)), &a.epk);
    let p = aead_open(&k, &a.enc)?;
    let n = parse_plain(&p, &a.nf, |d| (g_d(d) * mod_r(ivk)).to_bytes())?;
    if !note_valid(&n, a) {
        return None;
    }
    Some((n, p[52..].try_into().unwrap()))
}

pub fn decrypt_compact(ivk: &Fp, a: &RAction) -> Option<RNote> {
    let epk = pt_ni(&a.epk)?;
    let k = kdf(&(epk * mod_r(ivk)), &a.epk);
    let p = stream_open_compact(&k, a.enc[..52].try_into().unwrap());
    let n = parse_plain(&p, &a.nf, |d| (g_d(d) * mod_r(ivk)).to_bytes())?;
    if note_valid(&n, a) {
        Some(n)
    } else {
        None
    }
}

pub fn recover(ovk: &[u8; 32], a: &RAction) -> Option<(RNote, [u8; 512])> {
    let ock = ock(ovk, &a.cv, &a.cmx, &a.epk);
    let op = aead_open(&ock, &a.out)?;
    let pk_d: [u8; 32] = op[..32].try_into().unwrap();
    let pk = pt_ni(&pk_d)?;
    let esk = fq(op[32..].try_into().unwrap()).filter(|e| !bool::from(e.is_zero()))?;
    let k = kdf(&(pk * esk), &a.epk);
    let p = aead_open(&k, &a.enc)?;
    let n = parse_plain(&p, &a.nf, |_| pk_d)?;
    if n.esk() != Some(esk) || !note_valid(&n, a) {
        return None;
    }
    Some((n, p[52..].try_into().unwrap()))
}

/// An output as a sender following the protocol creates it. `ock` is the outgoing cipher
/// key to use (derived from an ovk, or random when there is none).
pub fn encrypt(n: &RNote, memo: &[u8; 512], cv: &[u8; 32], ovk: Option<&[u8; 32]>, random_out: (&[u8; 32], &[u8; 64])) -> Option<([u8; 32], Vec<u8>, Vec<u8>)> {
    let epk = n.epk()?;
    let pk = pt_ni(&n.pk_d())?;
    let esk = n.esk()?;
    let enc = aead_seal(&kdf(&(pk * esk), &epk), &n.plaintext(2, memo));
    let mut op = [0; 64];
    op[..32].copy_from_slice(&n.pk_d());
    op[32..].copy_from_slice(&esk.to_repr());
    let out = match ovk {
        Some(o) => aead_seal(&ock(o, cv, &n.cmx()?, &epk), &op),
        None => aead_seal(random_out.0, random_out.1),
    };
    Some((epk, enc, out))
}

// ---------------------------------------------------------------- values

pub fn fq_signed(v: i128) -> Fq {
    let m = Fq::from_u128(v.unsigned_abs());
    if v < 0 {
        -m
    } else {
        m
    }
}
pub fn value_commit(v: i128, rcv: &Fq) -> Pt {
    bases().cv_v * fq_signed(v) + bases().cv_r * rcv
}
/// Validating key of the binding signature; None if some commitment does not parse.
pub fn bvk(cvs: &[[u8; 32]], balance: i64) -> Option<[u8; 32]> {
    let mut s = Pt::identity();
    for c in cvs {
        s += pt(c)?;
    }
    Some((s - value_commit(balance as i128, &Fq::zero())).to_bytes())
}

// ---------------------------------------------------------------- signatures

pub fn spend_sig_ok(rk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    match reddsa::VerificationKey::<reddsa::orchard::SpendAuth>::try_from(*rk) {
        Ok(k) => k.verify(msg, &(*sig).into()).is_ok(),
        Err(_) => false,
    }
}
pub fn binding_sig_ok(bvk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    match reddsa::VerificationKey::<reddsa::orchard::Binding>::try_from(*bvk) {
        Ok(k) => k.verify(msg, &(*sig).into()).is_ok(),
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- tree

pub fn merkle_crh(level: u8, l: &Fp, r: &Fp) -> Fp {
    let d = HashDomain::new("z.cash:Orchard-MerkleCRH");
    let mut m: Vec<bool> = (0..10).map(|i| (level as u32 >> i) & 1 == 1).collect();
    m.extend(bits255(l));
    m.extend(bits255(r));
    Option::<Fp>::from(d.hash(m.into_iter())).unwrap_or(Fp::zero())
}

thread_local!(static EMPTY: std::cell::RefCell<Vec<Fp>> = std::cell::RefCell::new(vec![]));
/// Root of an empty subtree of the given height.
pub fn empty_root(h: usize) -> Fp {
    EMPTY.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_empty() {
            e.push(Fp::from(2));
        }
        while e.len() <= h {
            let x = *e.last().unwrap();
            let l = (e.len() - 1) as u8;
            e.push(merkle_crh(l, &x, &x));
        }
        e[h]
    })
}

/// A full, naive note commitment tree: the list of leaves is the whole state.
#[derive(Clone, Default)]
pub struct RTree {
    pub leaves: Vec<[u8; 32]>,
    memo: BTreeMap<(usize, usize, usize), Fp>,
}
impl RTree {
    pub fn push(&mut self, cmx: [u8; 32]) -> usize {
        self.leaves.push(cmx);
        self.leaves.len() - 1
    }
    fn node(&mut self, h: usize, idx: usize, n: usize) -> Fp {
        // number of leaves under this node
        let start = idx << h;
        if start >= n {
            return empty_root(h);
        }
        if h == 0 {
            return fp(&self.leaves[start]).expect("canonical leaf");
        }
        // A complete node does not depend on how many leaves follow.
        let key = (h, idx, if ((idx + 1) << h) <= n { usize::MAX } else { n });
        if let Some(x) = self.memo.get(&key) {
            return *x;
        }
        let l = self.node(h - 1, idx * 2, n);
        let r = self.node(h - 1, idx * 2 + 1, n);
        let x = merkle_crh((h - 1) as u8, &l, &r);
        self.memo.insert(key, x);
        x
    }
    pub fn root_at(&mut self, n: usize) -> [u8; 32] {
        self.node(32, 0, n).to_repr()
    }
    pub fn root(&mut self) -> [u8; 32] {
        let n = self.leaves.len();
        self.root_at(n)
    }
    pub fn path_at(&mut self, pos: usize, n: usize) -> [[u8; 32]; 32] {
        let mut o = [[0; 32]; 32];
        for (h, x) in o.iter_mut().enumerate() {
            *x = self.node(h, (pos >> h) ^ 1, n).to_repr();
        }
        o
    }
    pub fn truncate(&mut self, n: usize) {
        self.leaves.truncate(n);
        self.memo.clear();
    }
}
pub fn path_root(cmx: &[u8; 32], pos: u32, path: &[[u8; 32]; 32]) -> Option<[u8; 32]> {
    let mut x = fp(cmx)?;
    for (l, s) in path.iter().enumerate() {
        let s = fp(s)?;
        x = if (pos >> l) & 1 == 0 { merkle_crh(l as u8, &x, &s) } else { merkle_crh(l as u8, &s, &x) };
    }
    Some(x.to_repr())
}

// ---------------------------------------------------------------- digests (ZIP 244)

pub fn txid_digest(actions: &[RAction], flags: u8, balance: i64, anchor: &[u8; 32]) -> [u8; 32] {
    let (mut c, mut m, mut n) = (vec![], vec![], vec![]);
    for a in actions {
        c.extend_from_slice(&a.nf);
        c.extend_from_slice(&a.cmx);
        c.extend_from_slice(&a.epk);
        c.extend_from_slice(&a.enc[..52]);
        m.extend_from_slice(&a.enc[52..564]);
        n.extend_from_slice(&a.cv);
        n.extend_from_slice(&a.rk);
        n.extend_from_slice(&a.enc[564..]);
        n.extend_from_slice(&a.out);
    }
    blake32(
        b"ZTxIdOrchardHash",
        &[
            &blake32(b"ZTxIdOrcActCHash", &[&c]),
            &blake32(b"ZTxIdOrcActMHash", &[&m]),
            &blake32(b"ZTxIdOrcActNHash", &[&n]),
            &[flags],
            &balance.to_le_bytes(),
            anchor,
        ],
    )
}
pub fn auth_digest(proof: &[u8], spend_sigs: &[[u8; 64]], binding: &[u8; 64]) -> [u8; 32] {
    let mut b = proof.to_vec();
    for s in spend_sigs {
        b.extend_from_slice(s);
    }
    b.extend_from_slice(binding);
    blake32(b"ZTxAuthOrchaHash", &[&b])
}

// ---------------------------------------------------------------- the action statement

/// Everything a prover knows about an action.
#[derive(Clone, Debug, PartialEq)]
pub struct Witness {
    pub path: [[u8; 32]; 32],
    pub pos: u32,
    pub g_d_old: Pt,
    pub pk_d_old: Pt,
    pub v_old: u64,
    pub rho_old: Fp,
    pub psi_old: Fp,
    pub rcm_old: Fq,
    pub cm_old: Pt,
    pub alpha: Fq,
    pub ak: Pt,
    pub nk: Fp,
    pub rivk: Fq,
    pub g_d_new: Pt,
    pub pk_d_new: Pt,
    pub v_new: u64,
    pub psi_new: Fp,
    pub rcm_new: Fq,
    pub rcv: Fq,
}
/// Everything everybody knows about it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Public {
    pub anchor: [u8; 32],
    pub cv: [u8; 32],
    pub nf: [u8; 32],
    pub rk: [u8; 32],
    pub cmx: [u8; 32],
    pub spends: bool,
    pub outputs: bool,
}
pub fn note_commit(g_d: &Pt, pk_d: &Pt, v: u64, rho: &Fp, psi: &Fp, rcm: &Fq) -> Option<Pt> {
    let dom = CommitDomain::new("z.cash:Orchard-NoteCommit");
    let mut m = bits_of(&g_d.to_bytes());
    m.extend(bits_of(&pk_d.to_bytes()));
    m.extend(bits_of(&v.to_le_bytes()));
    m.extend(bits255(rho));
    m.extend(bits255(psi));
    Option::from(dom.commit(m.into_iter(), rcm))
}
pub fn derive_nullifier(nk: &Fp, rho: &Fp, psi: &Fp, cm: &Pt) -> Fp {
    let prf = poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init().hash([*nk, *rho]);
    extract(&(bases().nf_k * mod_r(&(prf + psi)) + cm))
}
impl Witness {
    pub fn of(fvk: &RFvk, scope: RScope, old: &RNote, pos: u32, path: &[[u8; 32]; 32], new: &RNote, alpha: Fq, rcv: Fq) -> Option<Witness> {
        Some(Witness {
            path: *path,
            pos,
            g_d_old: g_d(&old.d()),
            pk_d_old: pt(&old.pk_d())?,
            v_old: old.value,
            rho_old: fp(&old.rho)?,
            psi_old: old.psi(),
            rcm_old: old.rcm(),
            cm_old: old.cm()?,
            alpha,
            ak: pt(&fvk.ak)?,
            nk: fvk.nk,
            rivk: fvk.scoped(scope).rivk,
            g_d_new: g_d(&new.d()),
            pk_d_new: pt(&new.pk_d())?,
            v_new: new.value,
            psi_new: new.psi(),
            rcm_new: new.rcm(),
            rcv,
        })
    }
    pub fn nf(&self) -> [u8; 32] {
        derive_nullifier(&self.nk, &self.rho_old, &self.psi_old, &self.cm_old).to_repr()
    }
    pub fn rk(&self) -> [u8; 32] {
        (bases().spend_auth_g * self.alpha + self.ak).to_bytes()
    }
    pub fn cv(&self) -> [u8; 32] {
        value_commit(self.v_old as i128 - self.v_new as i128, &self.rcv).to_bytes()
    }
    /// The new note commits to the nullifier of the old one.
    pub fn cmx(&self, nf: &[u8; 32]) -> Option<[u8; 32]> {
        note_commit(&self.g_d_new, &self.pk_d_new, self.v_new, &fp(nf)?, &self.psi_new, &self.rcm_new).map(|c| extract(&c).to_repr())
    }
    pub fn root(&self) -> Option<[u8; 32]> {
        path_root(&extract(&self.cm_old).to_repr(), self.pos, &self.path)
    }
    /// Which parts of the action statement are false.
    pub fn wrong(&self, x: &Public) -> Vec<&'static str> {
        let mut o = vec![];
        let mut must = |ok: bool, what| {
            if !ok {
                o.push(what)
            }
        };
        must(
            note_commit(&self.g_d_old, &self.pk_d_old, self.v_old, &self.rho_old, &self.psi_old, &self.rcm_old) == Some(self.cm_old),
            "old-commitment",
        );
        must(self.v_old == 0 || self.root() == Some(x.anchor), "merkle-path");
        must(self.cv() == x.cv, "value-commitment");
        must(self.nf() == x.nf, "nullifier");
        must(self.rk() == x.rk, "randomized-key");
        let ivk = commit_ivk(&extract(&self.ak), &self.nk, &self.rivk);
        must(ivk.map(|i| self.g_d_old * mod_r(&i)) == Some(self.pk_d_old), "address-ownership");
        must(self.cmx(&self.nf()) == Some(x.cmx), "new-commitment");
        must(self.v_old == 0 || x.spends, "spends-disabled");
        must(self.v_new == 0 || x.outputs, "outputs-disabled");
        o
    }
}
