//! Replicas that keep indexes of keys, notes and commitments, and so rely on values of the same
//! kind being equal, and ordered, by what they mean and not by how they came about.
use std::cmp::Ordering;

use ff::PrimeField;
use orchard::bundle::Flags;
use orchard::keys::{Diversifier, FullViewingKey, IncomingViewingKey, SpendAuthorizingKey, SpendValidatingKey, SpendingKey};
use orchard::note::{ExtractedNoteCommitment, Nullifier, Rho};
use orchard::primitives::redpallas::{Binding, SigType, SigningKey, SpendAuth, VerificationKey};
use orchard::tree::MerkleHashOrchard;
use orchard::value::NoteValue;
use orchard::{Address, Anchor, Note};
use subtle::{ConditionallySelectable, ConstantTimeEq};

use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

trait Kind: 'static {
    type V: Clone;
    const NAME: &'static str;
    /// Lengths of the encoding's components.
    const PARTS: &'static [usize];
    fn dec(b: &[u8]) -> Option<Self::V>;
    /// A value the way wallets come by it, with its encoding.
    fn natural(ctx: &mut Ctx, w: &World) -> (Self::V, Vec<u8>);
    /// The part of the encoding that makes up the value.
    fn meaning(b: &[u8]) -> &[u8] {
        b
    }
    fn eq(a: &Self::V, b: &Self::V) -> Option<bool>;
    fn ne(a: &Self::V, b: &Self::V) -> Option<bool>;
    fn ct(_: &Self::V, _: &Self::V) -> Option<bool> {
        None
    }
    fn cmp(_: &Self::V, _: &Self::V) -> Option<(Ordering, Option<Ordering>)> {
        None
    }
    /// Constant-time choice between two.
    fn choose(_: &Self::V, _: &Self::V, _: u8) -> Option<Self::V> {
        None
    }
}
struct World {
    parties: Vec<Party>,
    notes: Vec<(usize, Note)>,
}
impl World {
    fn party(&self, ctx: &mut Ctx) -> Party {
        self.parties[ctx.pick("w.party", self.parties.len())].clone()
    }
    fn note(&self, ctx: &mut Ctx) -> (usize, Note) {
        self.notes[ctx.pick("w.note", self.notes.len())]
    }
}

fn arr<const N: usize>(b: &[u8]) -> Option<[u8; N]> {
    b.try_into().ok()
}

macro_rules! kind {
    ($t:ident, $v:ty, $name:literal, $parts:expr, [$($ops:ident),*], $dec:expr, $nat:expr $(, $meaning:expr)?) => {
        struct $t;
        impl Kind for $t {
            type V = $v;
            const NAME: &'static str = $name;
            const PARTS: &'static [usize] = &$parts;
            fn dec(b: &[u8]) -> Option<$v> {
                let f: fn(&[u8]) -> Option<$v> = $dec;
                f(b)
            }
            fn natural(ctx: &mut Ctx, w: &World) -> ($v, Vec<u8>) {
                let f: fn(&mut Ctx, &World) -> ($v, Vec<u8>) = $nat;
                f(ctx, w)
            }
            $(fn meaning(b: &[u8]) -> &[u8] {
                let f: fn(&[u8]) -> &[u8] = $meaning;
                f(b)
            })?
            $(kind!(@ $ops);)*
        }
    };
    (@ eq) => {
        fn eq(a: &Self::V, b: &Self::V) -> Option<bool> {
            Some(a == b)
        }
        fn ne(a: &Self::V, b: &Self::V) -> Option<bool> {
            Some(a != b)
        }
    };
    (@ noeq) => {
        fn eq(_: &Self::V, _: &Self::V) -> Option<bool> {
            None
        }
        fn ne(_: &Self::V, _: &Self::V) -> Option<bool> {
            None
        }
    };
    (@ ct) => {
        fn ct(a: &Self::V, b: &Self::V) -> Option<bool> {
            Some(a.ct_eq(b).into())
        }
    };
    (@ ord) => {
        fn cmp(a: &Self::V, b: &Self::V) -> Option<(Ordering, Option<Ordering>)> {
            Some((Ord::cmp(a, b), PartialOrd::partial_cmp(a, b)))
        }
    };
    (@ sel) => {
        fn choose(a: &Self::V, b: &Self::V, c: u8) -> Option<Self::V> {
            Some(<Self::V as ConditionallySelectable>::conditional_select(a, b, c.into()))
        }
    };
}

fn vkey<T: SigType>(ctx: &mut Ctx) -> (VerificationKey<T>, Vec<u8>)
where
    SigningKey<T>: TryFrom<[u8; 32]>,
{
    loop {
        let b = to_fq(&ctx.bytes::<64>("vkey")).to_repr();
        if let Ok(k) = SigningKey::<T>::try_from(b) {
            let v = VerificationKey::from(&k);
            let e = <[u8; 32]>::from(&v).to_vec();
            return (v, e);
        }
    }
}

kind!(Sk, SpendingKey, "spending key", [32], [noeq, ct],
    |b| Option::from(SpendingKey::from_bytes(arr(b)?)),
    |ctx, w| { let p = w.party(ctx); (p.sk, p.sk.to_bytes().to_vec()) });
kind!(Svk, SpendValidatingKey, "spend validating key", [32, 32, 32], [eq, ord],
    |b| Some(SpendValidatingKey::from(FullViewingKey::from_bytes(&arr(b)?)?)),
    |ctx, w| { let p = w.party(ctx); (SpendValidatingKey::from(&SpendAuthorizingKey::from(&p.sk)), p.fvk.to_bytes().to_vec()) },
    |b| &b[..32]);
kind!(Fvk, FullViewingKey, "full viewing key", [32, 32, 32], [eq, ord],
    |b| FullViewingKey::from_bytes(&arr(b)?),
    |ctx, w| { let p = w.party(ctx); (FullViewingKey::from(&p.sk), p.fvk.to_bytes().to_vec()) });
kind!(Ivk, IncomingViewingKey, "incoming viewing key", [32, 32], [eq, ord],
    |b| Option::from(IncomingViewingKey::from_bytes(&arr(b)?)),
    |ctx, w| { let s = SCOPES[ctx.pick("w.scope", 2)]; let k = w.party(ctx).fvk.to_ivk(s); let b = k.to_bytes().to_vec(); (k, b) });
kind!(Div, Diversifier, "diversifier", [11], [eq],
    |b| Some(Diversifier::from_bytes(arr(b)?)),
    |ctx, w| { let a = natural_address(ctx, w); (a.diversifier(), a.diversifier().as_array().to_vec()) });
kind!(Addr, Address, "address", [11, 32], [eq],
    |b| Option::from(Address::from_raw_address_bytes(&arr(b)?)),
    |ctx, w| { let a = natural_address(ctx, w); (a, a.to_raw_address_bytes().to_vec()) });
kind!(TheNote, Note, "note", [43, 8, 32, 32], [eq],
    |b| note_from(&RNote { addr: arr(&b[..43])?, value: u64::from_le_bytes(arr(&b[43..51])?), rho: arr(&b[51..83])?, rseed: arr(&b[83..])? }),
    |ctx, w| {
        let (_, n) = w.note(ctx);
        let r = rnote(&n);
        (n, [&r.addr[..], &r.value.to_le_bytes(), &r.rho, &r.rseed].concat())
    });
kind!(TheRho, Rho, "note identifier", [32], [eq, ord],
    |b| Option::from(Rho::from_bytes(&arr(b)?)),
    |ctx, w| {
        let (p, n) = w.note(ctx);
        // An identifier of the future is a nullifier of the past.
        let nf = n.nullifier(&w.parties[p].fvk);
        let b = nf.to_bytes();
        (Rho::from_bytes(&b).unwrap(), b.to_vec())
    });
kind!(Nf, Nullifier, "nullifier", [32], [eq, ct, ord],
    |b| Option::from(Nullifier::from_bytes(&arr(b)?)),
    |ctx, w| { let (p, n) = w.note(ctx); let nf = n.nullifier(&w.parties[p].fvk); (nf, nf.to_bytes().to_vec()) });
kind!(Cmx, ExtractedNoteCommitment, "note commitment", [32], [eq, ct],
    |b| Option::from(ExtractedNoteCommitment::from_bytes(&arr(b)?)),
    |ctx, w| { let (_, n) = w.note(ctx); let c = ExtractedNoteCommitment::from(n.commitment()); (c, c.to_bytes().to_vec()) });
kind!(Node, MerkleHashOrchard, "tree node", [32], [eq, ord, sel],
    |b| Option::from(MerkleHashOrchard::from_bytes(&arr(b)?)),
    |ctx, w| {
        let (_, n) = w.note(ctx);
        let h = MerkleHashOrchard::from_cmx(&ExtractedNoteCommitment::from(n.commitment()));
        (h, h.to_bytes().to_vec())
    });
kind!(Root, Anchor, "anchor", [32], [eq],
    |b| Option::from(Anchor::from_bytes(arr(b)?)),
    |ctx, w| {
        let (_, n) = w.note(ctx);
        let path = merkle_path(ctx.pick("w.pos", 3) as u32, &[ctx_node(); 32]);
        let a = path.root(ExtractedNoteCommitment::from(n.commitment()));
        (a, a.to_bytes().to_vec())
    });
kind!(Value, NoteValue, "value", [8], [eq],
    |b| Some(NoteValue::from_raw(u64::from_le_bytes(arr(b)?))),
    |ctx, w| { let (_, n) = w.note(ctx); (n.value(), n.value().inner().to_le_bytes().to_vec()) });
kind!(TheFlags, Flags, "flags", [1], [eq],
    |b| Flags::from_byte(b[0]),
    |ctx, _| { let f = [Flags::ENABLED, Flags::SPENDS_DISABLED, Flags::OUTPUTS_DISABLED, flags_none()][ctx.pick("w.flags", 4)]; (f, vec![f.to_byte()]) });
kind!(Vk, VerificationKey<SpendAuth>, "spend verification key", [32], [eq, ord],
    |b| VerificationKey::try_from(arr::<32>(b)?).ok(),
    |ctx, _| vkey(ctx));
kind!(Bvk, VerificationKey<Binding>, "binding verification key", [32], [eq, ord],
    |b| VerificationKey::try_from(arr::<32>(b)?).ok(),
    |ctx, _| vkey(ctx));

fn ctx_node() -> [u8; 32] {
    let mut b = [0; 32];
    b[0] = 2;
    b
}
fn natural_address(ctx: &mut Ctx, w: &World) -> Address {
    let p = w.party(ctx);
    let s = SCOPES[ctx.pick("w.scope", 2)];
    match ctx.pick("w.addr", 3) {
        0 => p.addr(diversifier_index(ctx), s),
        1 => p.fvk.to_ivk(s).address_at(diversifier_index(ctx)),
        _ => w.note(ctx).1.recipient(),
    }
}

/// Something that differs from `b` in one component, or hardly.
fn near<K: Kind>(ctx: &mut Ctx, b: &[u8], other: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    let k = ctx.pick("near.part", K::PARTS.len());
    let at: usize = K::PARTS[..k].iter().sum();
    let len = K::PARTS[k];
    match ctx.pick("near", 7) {
        0 => o[at..at + len].copy_from_slice(&other[at..at + len]),
        1 => {
            for x in &mut o[at..at + len] {
                *x = x.wrapping_add(1);
                if *x != 0 {
                    break;
                }
            }
        }
        2 => {
            let bit = ctx.pick("near.bit", len * 8);
            o[at + bit / 8] ^= 1 << (bit % 8);
        }
        3 => o[at + len - 1] ^= 0x80,
        4 => o[at + len - 1] ^= 1 << ctx.pick("near.topbit", 7),
        5 => {
            let w = 8.min(len);
            let i = ctx.pick("near.word", len / w) * w;
            for x in &mut o[at + i..at + i + w] {
                *x = !*x;
            }
        }
        _ => {
            // Words in another order, which comparisons by parts may not see.
            if len == 32 {
                let (i, j) = (ctx.pick("near.i", 4), ctx.pick("near.j", 4));
                for t in 0..8 {
                    o.swap(at + i * 8 + t, at + j * 8 + t);
                }
            } else {
                o[at..at + len].reverse();
            }
        }
    }
    o
}

/// A replica's index: sorted where there is an order, otherwise in order of arrival.
struct Index<K: Kind> {
    items: Vec<(K::V, Vec<u8>)>,
}
impl<K: Kind> Index<K> {
    fn same(a: &K::V, b: &K::V) -> bool {
        K::eq(a, b).or_else(|| K::ct(a, b)).unwrap()
    }
    fn find(&self, v: &K::V) -> Result<usize, usize> {
        if self.items.first().map_or(false, |x| K::cmp(&x.0, v).is_some()) {
            return self.items.binary_search_by(|x| K::cmp(&x.0, v).unwrap().0);
        }
        self.items.iter().position(|x| Self::same(&x.0, v)).ok_or(self.items.len())
    }
    fn insert(&mut self, v: K::V, b: Vec<u8>) -> bool {
        match self.find(&v) {
            Ok(_) => false,
            Err(i) => {
                self.items.insert(i, (v, b));
                true
            }
        }
    }
}

#[derive(Clone)]
enum Msg {
    Put(usize),
    Restart,
    Retry,
}

fn play<K: Kind>(ctx: &mut Ctx) -> Res {
    let parties = make_parties(ctx, 3);
    let mut notes = vec![];
    for _ in 0..ctx.range("notes", 1, 4) {
        let p = ctx.pick("note.party", parties.len());
        let s = SCOPES[ctx.pick("note.scope", 2)];
        let a = parties[p].addr(diversifier_index(ctx), s);
        let v = any_value(ctx);
        notes.push((p, mint(ctx, &a, v)));
    }
    let w = World { parties, notes };
    // What there is to be indexed: (value, encoding), by origin or read from storage.
    let mut pool: Vec<(K::V, Vec<u8>)> = vec![];
    let n = ctx.range("values", 2, 12);
    let mut tries = 0;
    while pool.len() < n && tries < 60 {
        tries += 1;
        if pool.is_empty() || ctx.pick("origin", 4) == 0 {
            pool.push(K::natural(ctx, &w));
            continue;
        }
        let i = ctx.pick("of", pool.len());
        let b = match ctx.pick("decoded", 4) {
            // The same once more, read from storage.
            0 => pool[i].1.clone(),
            _ => {
                let j = ctx.pick("with", pool.len());
                let (x, y) = (pool[i].1.clone(), pool[j].1.clone());
                near::<K>(ctx, &x, &y)
            }
        };
        if let Some(v) = K::dec(&b) {
            pool.push((v, b));
        } else {
            ctx.probe("undecodable");
        }
    }
    // Every pair, both ways; every triple for the order.
    let order = |a: &K::V, b: &K::V| K::cmp(a, b).map(|x| x.0);
    for (i, (a, x)) in pool.iter().enumerate() {
        for (j, (b, y)) in pool.iter().enumerate() {
            let want = K::meaning(x) == K::meaning(y);
            ctx.probe(if want { "equal" } else { "different" });
            let what = || format!("{} {i} ({}) and {j} ({})", K::NAME, hex::encode(x), hex::encode(y));
            if let Some(e) = K::eq(a, b) {
                ctx.check(e == want, "equality", || format!("equality of {}: {e}", what()))?;
                ctx.check(K::ne(a, b) == Some(!want), "inequality", || format!("inequality of {}: {:?}", what(), K::ne(a, b)))?;
            }
            if let Some(e) = K::ct(a, b) {
                ctx.check(e == want, "ct-equality", || format!("constant-time equality of {}: {e}", what()))?;
            }
            if let Some((c, p)) = K::cmp(a, b) {
                ctx.check((c == Ordering::Equal) == want, "order-equality", || format!("order of {}: {c:?}", what()))?;
                ctx.check(p == Some(c), "partial-order", || format!("partial order of {}: {p:?}, order: {c:?}", what()))?;
                ctx.check(order(b, a) == Some(c.reverse()), "order-antisymmetry", || format!("order of {}: {c:?}, the other way {:?}", what(), order(b, a)))?;
                for (k, (z, _)) in pool.iter().enumerate() {
                    if c == Ordering::Less && order(b, z) == Some(Ordering::Less) {
                        ctx.check(order(a, z) == Some(Ordering::Less), "order-transitivity", || format!("{} and {k}", what()))?;
                    }
                }
            }
            for c in [0u8, 1] {
                if let Some(v) = K::choose(a, b, c) {
                    let (right, wrong) = if c == 0 { (a, b) } else { (b, a) };
                    ctx.check(Index::<K>::same(&v, right), "selection", || format!("choice {c} between {}", what()))?;
                    ctx.check(want || !Index::<K>::same(&v, wrong), "selection", || format!("choice {c} between {} is the other", what()))?;
                }
            }
        }
    }
    // Two replicas are told of all of them, each in its own order.
    let mut net: Net<Msg> = Net::new(NetCfg::choose(ctx));
    let mut idx: Vec<Index<K>> = (0..2).map(|_| Index { items: vec![] }).collect();
    for r in 0..2 {
        for i in ctx.permutation("feed", pool.len()) {
            net.send(ctx, 9, r, Msg::Put(i));
        }
        if ctx.pick("restart", 2) == 1 {
            let at = ctx.range("restart.at", 1, 60) as u64 * 50_000;
            net.timer(ctx, r, at, Msg::Restart);
        }
    }
    net.timer(ctx, 9, 20_000_000, Msg::Retry);
    loop {
        let Some((_, r, m)) = net.next(ctx) else { break };
        match m {
            Msg::Put(i) => {
                let (v, b) = &pool[i];
                let known = idx[r].items.iter().any(|x| K::meaning(&x.1) == K::meaning(b));
                // Sometimes it arrives as bytes and sometimes it was at hand.
                let v = if ctx.pick("arrives", 2) == 0 { v.clone() } else { K::dec(b).unwrap() };
                let new = idx[r].insert(v, b.clone());
                ctx.log(format!("replica {r}: {} {i} new={new}", K::NAME));
                ctx.check(new != known, "index", || format!("replica {r} took {} {i} for {}", K::NAME, if new { "new" } else { "known" }))?;
            }
            Msg::Restart => {
                ctx.fault("crash.restart");
                let old = std::mem::take(&mut idx[r].items);
                let n = old.len();
                for i in ctx.permutation("reload", n) {
                    let b = old[i].1.clone();
                    idx[r].insert(K::dec(&b).unwrap(), b);
                }
                ctx.check_eq(idx[r].items.len(), n, "index-size", "values in an index after a restart")?;
            }
            Msg::Retry => {
                // Nobody knows what was lost: all of it again.
                net.quiesce();
                for r in 0..2 {
                    for i in 0..pool.len() {
                        net.send(ctx, 9, r, Msg::Put(i));
                    }
                }
            }
        }
    }
    let mut distinct: Vec<&[u8]> = pool.iter().map(|x| K::meaning(&x.1)).collect();
    distinct.sort();
    distinct.dedup();
    for (r, ix) in idx.iter().enumerate() {
        ctx.check_eq(ix.items.len(), distinct.len(), "index-size", &format!("{} entries of replica {r}", K::NAME))?;
        for (i, (v, _)) in pool.iter().enumerate() {
            ctx.check(ix.find(v).is_ok(), "lookup", || format!("replica {r} does not find {} {i}", K::NAME))?;
        }
    }
    if K::cmp(&pool[0].0, &pool[0].0).is_some() {
        let l: Vec<Vec<&[u8]>> = idx.iter().map(|x| x.items.iter().map(|y| K::meaning(&y.1)).collect()).collect();
        ctx.check(l[0] == l[1], "replicas-differ", || format!("the replicas list their {}s in different orders", K::NAME))?;
    }
    ctx.state(&format!("{}/{}/{}", K::NAME, pool.len(), distinct.len()));
    Ok(())
}

struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let plays: &[fn(&mut Ctx) -> Res] = &[
            play::<Fvk>, play::<Sk>, play::<Svk>, play::<Ivk>, play::<Div>, play::<Addr>, play::<TheNote>, play::<TheRho>,
            play::<Nf>, play::<Cmx>, play::<Node>, play::<Root>, play::<Value>, play::<TheFlags>, play::<Vk>, play::<Bvk>,
        ];
        plays[ctx.pick("kind", plays.len())](ctx)
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C24",
        scenario: Box::new(S),
        quick_runs: 3000,
        thorough_runs: 400_000,
        rule: "Each run takes one kind of value (keys at every level, addresses, diversifiers, notes, identifiers, nullifiers, commitments, tree nodes, anchors, values, flags, verification keys), obtained as wallets obtain it, read from storage, or differing from another in one component or bit; two replicas index them through losses, duplicates, reordering and restarts; all comparisons (==, !=, constant time, order, constant-time choice) of all pairs and triples are judged by the encodings.",
        real: &["orchard::keys", "orchard::note", "orchard::tree", "orchard::value", "orchard::bundle (flags)", "orchard::primitives::redpallas"],
        stub: &["network", "replicas' storage"],
        assumptions: &["two different notes never have the same commitment"],
    }
}
