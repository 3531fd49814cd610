//! What a wallet asks the builder for, decided by the run's seed, and what must come of it.
use std::collections::BTreeMap;

use ff::PrimeField;
use orchard::builder::{bundle as build_bundle, BuildError, Builder, BundleMetadata, BundleType, OutputInfo, SpendInfo};
use orchard::bundle::Flags;
use orchard::keys::{OutgoingViewingKey, Scope};
use orchard::tree::MerklePath;
use orchard::value::NoteValue;
use orchard::{Address, Note};
use rand_core::RngCore;

use crate::ctx::*;
use crate::refm::*;
use crate::world::*;

/// A note commitment tree of which only some leaves are known; the rest of the 2^32 leaves
/// are empty, or arbitrary (other people's notes).
#[derive(Clone, Default)]
pub struct Sparse {
    pub leaves: BTreeMap<u32, [u8; 32]>,
    pub filler: Option<u64>,
    memo: std::cell::RefCell<BTreeMap<(usize, u64), Fp>>,
}
impl Sparse {
    pub fn new(filler: Option<u64>) -> Self {
        Sparse { leaves: BTreeMap::new(), filler, memo: Default::default() }
    }
    pub fn insert(&mut self, pos: u32, cmx: [u8; 32]) {
        self.leaves.insert(pos, cmx);
        self.memo.borrow_mut().clear();
    }
    fn node(&self, h: usize, idx: u64) -> Fp {
        let lo = (idx << h) as u32;
        let hi = ((idx << h) + ((1u64 << h) - 1)) as u32;
        if self.leaves.range(lo..=hi).next().is_none() {
            return match self.filler {
                // The node next to the last known leaf's subtree may be anything.
                Some(s) => to_fp(&keyed(s, &format!("filler/{h}/{idx}"), 64).try_into().unwrap()),
                None => empty_root(h),
            };
        }
        if h == 0 {
            return fp(&self.leaves[&lo]).unwrap();
        }
        if let Some(x) = self.memo.borrow().get(&(h, idx)) {
            return *x;
        }
        let x = merkle_crh((h - 1) as u8, &self.node(h - 1, idx * 2), &self.node(h - 1, idx * 2 + 1));
        self.memo.borrow_mut().insert((h, idx), x);
        x
    }
    pub fn root(&self) -> [u8; 32] {
        self.node(32, 0).to_repr()
    }
    pub fn path(&self, pos: u32) -> [[u8; 32]; 32] {
        let mut o = [[0; 32]; 32];
        for (h, x) in o.iter_mut().enumerate() {
            *x = self.node(h, ((pos as u64) >> h) ^ 1).to_repr();
        }
        o
    }
}

pub fn position(ctx: &mut Ctx) -> u32 {
    match ctx.pick("pos.kind", 7) {
        0 => ctx.pick("pos.small", 16) as u32,
        1 => ctx.u64("pos") as u32,
        2 => u32::MAX - ctx.pick("pos.top", 4) as u32,
        3 => 1u32 << ctx.pick("pos.bit", 32),
        4 => (1u32 << 31) + ctx.pick("pos.mid", 4) as u32,
        5 => 0xffff - 2 + ctx.pick("pos.16", 5) as u32,
        _ => !(1u32 << ctx.pick("pos.bit", 32)),
    }
}

/// Values whose sums stay inside the balance type.
pub fn small_value(ctx: &mut Ctx) -> u64 {
    match ctx.pick("value.kind", 6) {
        0 => 1 + ctx.pick("value.small", 1000) as u64,
        1 => 0,
        2 => ctx.u64("value") >> 8,
        3 => ctx.u64("value") & 0xffff_ffff,
        4 => 2_100_000_000_000_000,
        _ => 1u64 << ctx.pick("value.bit", 56),
    }
}
/// Any representable note value.
pub fn any_value(ctx: &mut Ctx) -> u64 {
    match ctx.pick("value.any", 8) {
        0 => 1 + ctx.pick("value.small", 1000) as u64,
        1 => 0,
        2 => u64::MAX,
        3 => i64::MAX as u64,
        4 => 1 << 63,
        5 => u64::MAX - ctx.pick("value.near", 4) as u64,
        6 => (1 << 63) - 2 + ctx.pick("value.near", 5) as u64,
        _ => ctx.u64("value"),
    }
}

#[derive(Clone)]
pub struct PSpend {
    pub party: usize,
    pub scope: Scope,
    pub note: Note,
    pub r: RNote,
    pub pos: u32,
    pub sib: [[u8; 32]; 32],
}
impl PSpend {
    pub fn path(&self) -> MerklePath {
        merkle_path(self.pos, &self.sib)
    }
}
#[derive(Clone)]
pub struct POut {
    pub party: usize,
    pub scope: Scope,
    pub addr: Address,
    pub value: u64,
    pub memo: Option<[u8; 512]>,
    pub ovk: Option<[u8; 32]>,
}

#[derive(Clone)]
pub struct Plan {
    pub parties: Vec<Party>,
    pub ty: BundleType,
    pub anchor: [u8; 32],
    pub spends: Vec<PSpend>,
    pub outs: Vec<POut>,
}

#[derive(Clone, Copy)]
pub struct PlanCfg {
    pub max_parties: usize,
    pub max_spends: usize,
    pub max_outs: usize,
    pub any_values: bool,
    /// Allow types that disable spends or outputs, and coinbase.
    pub all_types: bool,
    /// Now and then ask for up to this many spends and outputs instead.
    pub big: usize,
}
impl Default for PlanCfg {
    fn default() -> Self {
        PlanCfg { max_parties: 3, max_spends: 3, max_outs: 3, any_values: false, all_types: true, big: 0 }
    }
}

pub fn ty_name(t: &BundleType) -> String {
    match t {
        BundleType::Coinbase => "coinbase".into(),
        BundleType::Transactional { flags, bundle_required } => format!(
            "tx(s={},o={},req={})",
            intent(flags).0 as u8,
            intent(flags).1 as u8,
            *bundle_required as u8
        ),
    }
}

pub fn flags_none() -> Flags {
    match BundleType::DISABLED {
        BundleType::Transactional { flags, .. } => flags,
        _ => unreachable!(),
    }
}
/// What a flags constant means, by its name rather than by its accessors.
pub fn intent(f: &Flags) -> (bool, bool) {
    if *f == Flags::ENABLED {
        (true, true)
    } else if *f == Flags::SPENDS_DISABLED {
        (false, true)
    } else if *f == Flags::OUTPUTS_DISABLED {
        (true, false)
    } else {
        (false, false)
    }
}
pub fn bundle_type(ctx: &mut Ctx, all: bool) -> BundleType {
    if !all {
        return BundleType::Transactional { flags: Flags::ENABLED, bundle_required: ctx.pick("type.required", 2) == 1 };
    }
    match ctx.pick("type", 9) {
        0 => BundleType::DEFAULT,
        1 => BundleType::Coinbase,
        2 => BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: false },
        3 => BundleType::Transactional { flags: Flags::OUTPUTS_DISABLED, bundle_required: false },
        4 => BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true },
        5 => BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: true },
        6 => BundleType::Transactional { flags: Flags::OUTPUTS_DISABLED, bundle_required: true },
        7 => BundleType::Transactional { flags: flags_none(), bundle_required: true },
        _ => BundleType::DISABLED,
    }
}
/// (spends allowed, outputs allowed, required, coinbase) according to the bundle type's definition.
pub fn rules(t: &BundleType) -> (bool, bool, bool, bool) {
    match t {
        BundleType::Coinbase => (false, true, false, true),
        BundleType::Transactional { flags, bundle_required } => {
            let (s, o) = intent(flags);
            (s, o, *bundle_required, false)
        }
    }
}
/// How many actions a bundle has; None when the request is not allowed.
pub fn expected_actions(t: &BundleType, spends: usize, outs: usize) -> Option<usize> {
    let (s, o, req, coinbase) = rules(t);
    if (spends > 0 && !s) || (outs > 0 && !o) {
        return None;
    }
    let n = spends.max(outs);
    Some(if coinbase {
        n
    } else if n == 0 && !req {
        0
    } else {
        n.max(2)
    })
}

pub fn diversifier_index(ctx: &mut Ctx) -> u32 {
    match ctx.pick("div.kind", 3) {
        0 => ctx.pick("div.small", 4) as u32,
        1 => ctx.u64("div") as u32,
        _ => u32::MAX,
    }
}

pub fn make_parties(ctx: &mut Ctx, max: usize) -> Vec<Party> {
    let n = ctx.range("parties", 1, max);
    (0..n).map(|i| Party::new(ctx, &format!("p{i}"))).collect()
}

pub fn make_out(ctx: &mut Ctx, parties: &[Party], any: bool) -> POut {
    let p = ctx.pick("out.party", parties.len());
    let scope = SCOPES[ctx.pick("out.scope", 2)];
    let addr = parties[p].addr(diversifier_index(ctx), scope);
    let value = if any { any_value(ctx) } else { small_value(ctx) };
    let q = ctx.pick("out.sender", parties.len());
    let ovk = match ctx.pick("out.ovk", 4) {
        0 => None,
        1 => Some(*parties[q].fvk.to_ovk(Scope::External).as_ref()),
        2 => Some(*parties[q].fvk.to_ovk(Scope::Internal).as_ref()),
        _ => Some(ctx.bytes("out.ovk")),
    };
    POut { party: p, scope, addr, value, memo: memo(ctx), ovk }
}

/// Notes of these parties in a tree, ready to be spent; and the tree's root.
pub fn make_spends(ctx: &mut Ctx, parties: &[Party], ns: usize, any: bool) -> (Vec<PSpend>, [u8; 32]) {
    let filler = match ctx.pick("tree.filler", 3) {
        0 => None,
        _ => Some(ctx.u64("tree.filler")),
    };
    let mut tree = Sparse::new(filler);
    let mut pending = vec![];
    for _ in 0..ns {
        let p = ctx.pick("spend.party", parties.len());
        let scope = SCOPES[ctx.pick("spend.scope", 2)];
        let addr = parties[p].addr(diversifier_index(ctx), scope);
        let v = if any { any_value(ctx) } else { small_value(ctx) };
        let note = mint(ctx, &addr, v);
        let mut pos = position(ctx);
        while tree.leaves.contains_key(&pos) {
            pos = pos.wrapping_add(1);
        }
        // Zero-valued notes need not be in the tree at all.
        let absent = v == 0 && ctx.chance("spend.absent", 1, 2);
        if !absent {
            tree.insert(pos, cmx_of(&note));
        }
        pending.push((p, scope, note, pos, absent));
    }
    let spends: Vec<PSpend> = pending
        .into_iter()
        .map(|(party, scope, note, pos, absent)| {
            let sib = if absent {
                let s = ctx.u64("absent.path");
                let mut a = [[0; 32]; 32];
                for (i, x) in a.iter_mut().enumerate() {
                    *x = to_fp(&keyed(s, &format!("{i}"), 64).try_into().unwrap()).to_repr();
                }
                a
            } else {
                tree.path(pos)
            };
            PSpend { party, scope, r: rnote(&note), note, pos, sib }
        })
        .collect();
    (spends, tree.root())
}

pub fn make_plan(ctx: &mut Ctx, cfg: PlanCfg) -> Plan {
    let parties = make_parties(ctx, cfg.max_parties);
    let ty = bundle_type(ctx, cfg.all_types);
    let (s_ok, o_ok, _, _) = rules(&ty);
    let (mut max_s, mut max_o) = (cfg.max_spends, cfg.max_outs);
    if cfg.big > 0 && ctx.chance("big", 1, 12) {
        max_s = cfg.big;
        max_o = cfg.big;
        ctx.probe("big_request");
    }
    let ns = if s_ok { ctx.pick("n.spends", max_s + 1) } else { 0 };
    let no = if o_ok { ctx.pick("n.outs", max_o + 1) } else { 0 };
    let (spends, root) = make_spends(ctx, &parties, ns, cfg.any_values);
    let anchor = match ctx.pick("anchor.none", 4) {
        // Without spends any anchor will do.
        1 if ns == 0 => canonical_fp(ctx, "anchor"),
        _ => root,
    };
    let outs = (0..no).map(|_| make_out(ctx, &parties, cfg.any_values)).collect();
    Plan { parties, ty, anchor, spends, outs }
}

impl Plan {
    pub fn describe(&self) -> String {
        format!(
            "{} spends=[{}] outs=[{}]",
            ty_name(&self.ty),
            self.spends.iter().map(|s| format!("p{} {:?} v={} pos={}", s.party, s.scope, s.r.value, s.pos)).collect::<Vec<_>>().join(", "),
            self.outs
                .iter()
                .map(|o| format!("p{} {:?} v={}{}", o.party, o.scope, o.value, if o.ovk.is_some() { " ovk" } else { "" }))
                .collect::<Vec<_>>()
                .join(", "),
        )
    }
    pub fn shape(&self) -> String {
        format!("{}/{}/{}", ty_name(&self.ty), self.spends.len(), self.outs.len())
    }
    /// Mathematical balance.
    pub fn balance(&self) -> i128 {
        self.spends.iter().map(|s| s.r.value as i128).sum::<i128>() - self.outs.iter().map(|o| o.value as i128).sum::<i128>()
    }
    pub fn expected_actions(&self) -> Option<usize> {
        expected_actions(&self.ty, self.spends.len(), self.outs.len())
    }
    pub fn builder(&self) -> Result<Builder, String> {
        let mut b = Builder::new(self.ty, anchor(&self.anchor));
        for s in &self.spends {
            b.add_spend(self.parties[s.party].fvk.clone(), s.note, s.path()).map_err(|e| format!("add_spend: {e:?}"))?;
        }
        for o in &self.outs {
            b.add_output(o.ovk.map(OutgoingViewingKey::from), o.addr, NoteValue::from_raw(o.value), o.memo)
                .map_err(|e| format!("add_output: {e:?}"))?;
        }
        Ok(b)
    }
    /// The custom-builder path.
    pub fn infos(&self) -> Result<(Vec<SpendInfo>, Vec<OutputInfo>), String> {
        let spends = self
            .spends
            .iter()
            .map(|s| SpendInfo::new(self.parties[s.party].fvk.clone(), s.note, s.path()).ok_or("SpendInfo::new refused".to_string()))
            .collect::<Result<_, _>>()?;
        let outs = self
            .outs
            .iter()
            .map(|o| OutputInfo::new(o.ovk.map(OutgoingViewingKey::from), o.addr, NoteValue::from_raw(o.value), o.memo))
            .collect();
        Ok((spends, outs))
    }
    pub fn build(&self, custom: bool, rng: impl RngCore) -> Result<Option<(Unauth, BundleMetadata)>, BuildError> {
        if custom {
            let (s, o) = self.infos().expect("plan is acceptable");
            build_bundle(rng, anchor(&self.anchor), self.ty, s, o)
        } else {
            self.builder().expect("plan is acceptable").build(rng)
        }
    }
    /// Which party's signature each requested spend needs.
    pub fn asks(&self) -> Vec<orchard::keys::SpendAuthorizingKey> {
        let mut seen = std::collections::BTreeSet::new();
        self.spends.iter().filter(|s| seen.insert(s.party)).map(|s| self.parties[s.party].ask.clone()).collect()
    }
    pub fn build_ok(&self, ctx: &mut Ctx, custom: bool, rng: impl RngCore) -> Res<Option<(Unauth, BundleMetadata)>> {
        match self.build(custom, rng) {
            Ok(x) => Ok(x),
            Err(e) => ctx.violation("build-refused", format!("building {} failed: {e:?}", self.describe())),
        }
    }
}

/// The action whose revealed nullifier is this spend's.
pub fn find_spend(actions: &[RAction], parties: &[Party], s: &PSpend) -> Vec<usize> {
    let nf = s.r.nullifier(&parties[s.party].r.fvk.nk).unwrap();
    (0..actions.len()).filter(|i| actions[*i].nf == nf).collect()
}
