//! A simulated ledger and the wallets using it. The ledger keeps an omniscient model of
//! every note (from reference decryption by the simulator), wallets only use the crate.
use std::collections::{BTreeMap, BTreeSet};

use orchard::builder::BundleType;
use orchard::keys::Scope;
use orchard::Note;

use crate::ctx::*;
use crate::plan::*;
use crate::refm::*;
use crate::world::*;

/// A note the simulator knows exists, however it knows.
#[derive(Clone, Debug)]
pub struct Live {
    pub owner: usize,
    pub scope: Scope,
    pub r: RNote,
    pub pos: usize,
    pub nf: [u8; 32],
    pub spent: bool,
}

#[derive(Clone, Default)]
pub struct Ledger {
    pub tree: RTree,
    /// tree sizes after each accepted transaction
    pub marks: Vec<usize>,
    pub anchors: BTreeMap<[u8; 32], usize>,
    pub nfs: BTreeSet<[u8; 32]>,
    pub pool: i128,
    pub entered: i128,
    pub left: i128,
    pub notes: Vec<Live>,
    pub txs: Vec<(Wire, Vec<u8>)>,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Verdict {
    Accepted,
    Malformed,
    BadProof,
    BadSignature,
    UnknownAnchor,
    DoubleSpend,
}

impl Ledger {
    pub fn new() -> Self {
        let mut l = Ledger::default();
        l.marks.push(0);
        let r = l.tree.root();
        l.anchors.insert(r, 0);
        l
    }
    pub fn root(&mut self) -> [u8; 32] {
        self.tree.root()
    }
    /// What a full node decides, using the crate for everything but proof soundness.
    pub fn judge(&self, ideal: &Ideal, w: &Wire, rest: &[u8]) -> Verdict {
        let Some(b) = w.parse() else { return Verdict::Malformed };
        if !self.anchors.contains_key(&b.anchor().to_bytes()) {
            return Verdict::UnknownAnchor;
        }
        if !ideal.verify(&b) {
            return Verdict::BadProof;
        }
        if !signatures_ok(&b, &sighash(&b, rest)) {
            return Verdict::BadSignature;
        }
        let mut seen = BTreeSet::new();
        for a in b.actions() {
            let nf = a.nullifier().to_bytes();
            if self.nfs.contains(&nf) || !seen.insert(nf) {
                return Verdict::DoubleSpend;
            }
        }
        Verdict::Accepted
    }
    /// Applies an accepted transaction. Returns the positions of its new commitments.
    pub fn apply(&mut self, w: &Wire, rest: &[u8], parties: &[Party]) -> Vec<usize> {
        let mut pos = vec![];
        for a in &w.actions {
            self.nfs.insert(a.nf);
            for n in self.notes.iter_mut().filter(|n| n.nf == a.nf) {
                n.spent = true;
            }
            let p = self.tree.push(a.cmx);
            pos.push(p);
            for (i, party) in parties.iter().enumerate() {
                for s in SCOPES {
                    if let Some((r, _)) = decrypt(&party.r.fvk.ivk(rscope(s)).unwrap().ivk, a) {
                        let nf = r.nullifier(&party.r.fvk.nk).unwrap();
                        self.notes.push(Live { owner: i, scope: s, r, pos: p, nf, spent: false });
                    }
                }
            }
        }
        self.pool -= w.balance as i128;
        if w.balance < 0 {
            self.entered += -(w.balance as i128);
        } else {
            self.left += w.balance as i128;
        }
        let n = self.tree.leaves.len();
        self.marks.push(n);
        let r = self.tree.root();
        self.anchors.insert(r, n);
        self.txs.push((w.clone(), rest.to_vec()));
        pos
    }
    pub fn unspent(&self) -> i128 {
        self.notes.iter().filter(|n| !n.spent).map(|n| n.r.value as i128).sum()
    }
}

/// Puts together a transaction spending the given live notes at the tree size `at`.
pub fn plan_tx(ledger: &mut Ledger, parties: &[Party], ty: BundleType, at: usize, notes: &[Live], outs: Vec<POut>) -> Plan {
    let anchor = ledger.tree.root_at(at);
    let spends = notes
        .iter()
        .map(|l| {
            let note: Note = note_from(&l.r).expect("live note");
            PSpend { party: l.owner, scope: l.scope, r: l.r.clone(), note, pos: l.pos as u32, sib: ledger.tree.path_at(l.pos, at) }
        })
        .collect();
    Plan { parties: parties.to_vec(), ty, anchor, spends, outs }
}

/// Builds, proves (ideally) and signs; `rest` is the rest of the transaction.
pub fn finish(ctx: &mut Ctx, ideal: &mut Ideal, plan: &Plan, b: Unauth, rest: &[u8]) -> Res<Auth> {
    let msg = sighash(&b, rest);
    let mut rng = ctx.rng("sign");
    let proven = ideal.prove(ctx, b);
    match proven.apply_signatures(&mut rng, msg, &plan.asks()) {
        Ok(a) => Ok(a),
        Err(e) => ctx.violation("signing-failed", format!("{e:?}")),
    }
}

/// A transaction that brings value into the pool.
pub fn fund(ctx: &mut Ctx, ledger: &mut Ledger, ideal: &mut Ideal, parties: &[Party], outs: Vec<POut>) -> Res {
    let n = ledger.tree.leaves.len();
    let ty = BundleType::Coinbase;
    let plan = plan_tx(ledger, parties, ty, n, &[], outs);
    let rng = ctx.rng("fund");
    let Some((b, _)) = plan.build_ok(ctx, false, rng)? else { return Ok(()) };
    let a = finish(ctx, ideal, &plan, b, b"fund")?;
    let w = Wire::of(&a);
    let v = ledger.judge(ideal, &w, b"fund");
    ctx.check_eq(v, Verdict::Accepted, "honest-rejected", "verdict on an honest funding transaction")?;
    ledger.apply(&w, b"fund", parties);
    Ok(())
}
