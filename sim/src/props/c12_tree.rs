//! Nodes keeping the note commitment tree in different ways agree with each other and with a
//! naive tree, through reorganizations, restarts and lost messages; and builders accept
//! exactly the spends whose paths lead to their anchor.
use std::collections::BTreeMap;

use bridgetree::BridgeTree;
use ff::PrimeField;
use incrementalmerkletree::frontier::{CommitmentTree, Frontier};
use incrementalmerkletree::witness::IncrementalWitness;
use incrementalmerkletree::{Hashable, Level, Position};
use orchard::builder::{bundle as build_bundle, BuildError, Builder, BundleType, OutputInfo, SpendInfo};
use orchard::note::ExtractedNoteCommitment;
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::Anchor;

use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

type H = MerkleHashOrchard;
type B32 = [u8; 32];

/// A tree of which everything up to some position is only known as a frontier.
#[derive(Clone)]
struct Model {
    base: Option<(u32, B32, Vec<B32>)>,
    fixed: BTreeMap<(usize, u64), Fp>,
    leaves: Vec<B32>,
    memo: BTreeMap<(usize, u64, u64), Fp>,
}
impl Model {
    fn new(base: Option<(u32, B32, Vec<B32>)>) -> Self {
        let mut fixed = BTreeMap::new();
        if let Some((p, leaf, ommers)) = &base {
            fixed.insert((0, *p as u64), fp(leaf).unwrap());
            let mut o = ommers.iter();
            for h in 0..32 {
                if (p >> h) & 1 == 1 {
                    fixed.insert((h, ((*p as u64) >> h) ^ 1), fp(o.next().unwrap()).unwrap());
                }
            }
        }
        Model { base, fixed, leaves: vec![], memo: BTreeMap::new() }
    }
    fn first(&self) -> u64 {
        self.base.as_ref().map_or(0, |b| b.0 as u64 + 1)
    }
    fn room(&self) -> u64 {
        (1u64 << 32) - self.first()
    }
    /// Node when only the first `n` leaves are there.
    fn node(&mut self, h: usize, idx: u64, n: u64) -> Fp {
        let end = self.first() + n;
        let start = idx << h;
        if start >= end {
            return empty_root(h);
        }
        if let Some(x) = self.fixed.get(&(h, idx)) {
            return *x;
        }
        if h == 0 {
            return fp(&self.leaves[(start - self.first()) as usize]).unwrap();
        }
        let key = (h, idx, if ((idx + 1) << h) <= end { u64::MAX } else { n });
        if let Some(x) = self.memo.get(&key) {
            return *x;
        }
        let x = merkle_crh((h - 1) as u8, &self.node(h - 1, idx * 2, n), &self.node(h - 1, idx * 2 + 1, n));
        self.memo.insert(key, x);
        x
    }
    fn root(&mut self, n: usize) -> B32 {
        self.node(32, 0, n as u64).to_repr()
    }
    fn path(&mut self, pos: u64, n: usize) -> [B32; 32] {
        let mut o = [[0; 32]; 32];
        for (h, x) in o.iter_mut().enumerate() {
            *x = self.node(h, (pos >> h) ^ 1, n as u64).to_repr();
        }
        o
    }
}

#[derive(Clone)]
struct Block {
    parent: Option<usize>,
    height: usize,
    leaves: Vec<(B32, bool)>,
}
fn chain_to(blocks: &[Block], tip: usize) -> Vec<usize> {
    let mut v = vec![tip];
    let mut t = tip;
    while let Some(p) = blocks[t].parent {
        v.push(p);
        t = p;
    }
    v.reverse();
    v
}

fn h(b: &B32) -> H {
    MerkleHashOrchard::from_cmx(&ExtractedNoteCommitment::from_bytes(b).unwrap())
}

#[derive(Clone)]
enum Tree {
    Bridge(BridgeTree<H, u32, 32>),
    /// per block: the frontier after it; plus the witnesses a wallet keeps
    Frontier(Vec<Frontier<H, 32>>),
    Witness(Vec<(CommitmentTree<H, 32>, Vec<IncrementalWitness<H, 32>>)>),
}

struct Node {
    tree: Tree,
    /// blocks applied
    at: Vec<usize>,
    disk_at: Vec<usize>,
    disk: Vec<u8>,
}

fn base_frontier(base: &Option<(u32, B32, Vec<B32>)>) -> Frontier<H, 32> {
    match base {
        None => Frontier::empty(),
        Some((p, l, o)) => Frontier::from_parts(Position::from(*p as u64), h(l), o.iter().map(h).collect()).expect("frontier"),
    }
}
fn base_tree(kind: usize, base: &Option<(u32, B32, Vec<B32>)>) -> Tree {
    match kind {
        0 => Tree::Bridge(match base_frontier(base).take() {
            None => BridgeTree::new(100),
            Some(f) => BridgeTree::from_frontier(100, f),
        }),
        1 => Tree::Frontier(vec![base_frontier(base)]),
        _ => Tree::Witness(vec![(CommitmentTree::from_frontier(&base_frontier(base)), vec![])]),
    }
}

fn save_frontier(f: &Frontier<H, 32>) -> Vec<u8> {
    serde_json::to_vec(&f.value().map(|v| (u64::from(v.position()), v.leaf(), v.ommers().to_vec()))).unwrap()
}
fn load_frontier(b: &[u8]) -> Option<Frontier<H, 32>> {
    let v: Option<(u64, H, Vec<H>)> = serde_json::from_slice(b).ok()?;
    match v {
        None => Some(Frontier::empty()),
        Some((p, l, o)) => Frontier::from_parts(p.into(), l, o).ok(),
    }
}

fn apply_block(ctx: &mut Ctx, t: &mut Tree, b: &Block) -> Res {
    let mut ok = true;
    match t {
        Tree::Bridge(t) => {
            for (c, mine) in &b.leaves {
                ok &= t.append(h(c));
                if *mine {
                    t.mark();
                }
            }
            t.checkpoint(b.height as u32);
            if ctx.chance("node.gc", 1, 5) {
                t.garbage_collect();
            }
        }
        Tree::Frontier(v) => {
            let mut f = v.last().unwrap().clone();
            for (c, _) in &b.leaves {
                ok &= f.append(h(c));
            }
            v.push(f);
        }
        Tree::Witness(v) => {
            let (mut t, mut w) = v.last().unwrap().clone();
            for (c, mine) in &b.leaves {
                ok &= t.append(h(c)).is_ok();
                for x in w.iter_mut() {
                    ok &= x.append(h(c)).is_ok();
                }
                if *mine {
                    w.push(IncrementalWitness::from_tree(t.clone()));
                }
            }
            v.push((t, w));
        }
    }
    ctx.check(ok, "append", || "the tree refused a leaf although there is room".into())
}
fn rewind_block(t: &mut Tree, below: usize) {
    match t {
        Tree::Bridge(t) => {
            // the checkpoint of the block itself, then back to the parent's, which stays
            t.rewind();
            t.rewind();
            t.checkpoint(below as u32);
        }
        Tree::Frontier(v) => {
            v.pop();
        }
        Tree::Witness(v) => {
            v.pop();
        }
    }
}

fn check_path(ctx: &mut Ctx, m: &mut Model, n: usize, pos: u64, leaf: &B32, path: MerklePath, what: &str) -> Res {
    let root = path.root(ExtractedNoteCommitment::from_bytes(leaf).unwrap()).to_bytes();
    let want = m.root(n);
    ctx.check_eq(root, want, "path", &format!("{what}: root of the path of the leaf at {pos}"))?;
    ctx.probe("path");
    Ok(())
}

impl Node {
    fn restart(&mut self, ctx: &mut Ctx, base: &Option<(u32, B32, Vec<B32>)>, blocks: &[Block]) -> Res {
        let kind = match self.tree {
            Tree::Bridge(_) => 0,
            Tree::Frontier(_) => 1,
            Tree::Witness(_) => 2,
        };
        self.at = self.disk_at.clone();
        self.tree = base_tree(kind, base);
        if let Tree::Frontier(v) = &mut self.tree {
            if !self.disk.is_empty() {
                let saved: Vec<Vec<u8>> = serde_json::from_slice(&self.disk).unwrap();
                v.clear();
                for s in saved {
                    match load_frontier(&s) {
                        Some(f) => v.push(f),
                        None => return ctx.violation("frontier-lost", "a stored frontier does not load"),
                    }
                }
            }
            return Ok(());
        }
        if kind == 0 {
            if let Tree::Bridge(t) = &mut self.tree {
                t.checkpoint(0);
            }
        }
        for b in self.at.clone() {
            apply_block(ctx, &mut self.tree, &blocks[b])?;
        }
        Ok(())
    }
    fn save(&mut self) {
        self.disk_at = self.at.clone();
        if let Tree::Frontier(v) = &self.tree {
            self.disk = serde_json::to_vec(&v.iter().map(save_frontier).collect::<Vec<_>>()).unwrap();
        }
    }
    fn sync(&mut self, ctx: &mut Ctx, blocks: &[Block], tip: usize) -> Res {
        let want = chain_to(blocks, tip);
        let common = self.at.iter().zip(&want).take_while(|(a, b)| a == b).count();
        while self.at.len() > common {
            rewind_block(&mut self.tree, self.at.len() - 1);
            self.at.pop();
            ctx.fault("chain.reorg");
        }
        for b in &want[common..] {
            apply_block(ctx, &mut self.tree, &blocks[*b])?;
            self.at.push(*b);
        }
        Ok(())
    }
    fn check(&self, ctx: &mut Ctx, base: &Option<(u32, B32, Vec<B32>)>, blocks: &[Block]) -> Res {
        let mut m = Model::new(base.clone());
        let mut marks = vec![];
        let mut ends = vec![0];
        for b in &self.at {
            for (l, mine) in &blocks[*b].leaves {
                if *mine {
                    marks.push((m.first() + m.leaves.len() as u64, *l));
                }
                m.leaves.push(*l);
            }
            ends.push(m.leaves.len());
        }
        let n = m.leaves.len();
        let want = m.root(n);
        let got: H = match &self.tree {
            Tree::Bridge(t) => t.root(0).unwrap(),
            Tree::Frontier(v) => v.last().unwrap().root(),
            Tree::Witness(v) => v.last().unwrap().0.root(),
        };
        ctx.check_eq(got.to_bytes(), want, "root", &format!("root of {n} leaves after {}", m.first()))?;
        ctx.check_eq(Anchor::from(got).to_bytes(), want, "root", "anchor")?;
        match &self.tree {
            Tree::Bridge(t) => {
                let back = ctx.pick("check.depth", self.at.len() + 1);
                // depth 1 is the checkpoint of the newest block
                if back > 0 {
                    let k = ends[ends.len() - back];
                    let want = m.root(k);
                    ctx.check_eq(t.root(back).map(|r| r.to_bytes()), Some(want), "root", &format!("root {back} checkpoints ago"))?;
                }
                for (pos, leaf) in &marks {
                    let w = match t.witness(Position::from(*pos), 0) {
                        Ok(w) => w,
                        Err(e) => return ctx.violation("witness", format!("no witness for a marked leaf at {pos}: {e:?}")),
                    };
                    let want = m.path(*pos, n);
                    ctx.check(w.iter().map(|x| x.to_bytes()).eq(want.iter().copied()), "witness", || format!("path of the leaf at {pos}"))?;
                    let path = if *pos & 1 == 0 {
                        MerklePath::from_parts(*pos as u32, w.try_into().unwrap())
                    } else {
                        MerklePath::from(incrementalmerkletree::MerklePath::from_parts(w, Position::from(*pos)).unwrap())
                    };
                    check_path(ctx, &mut m, n, *pos, leaf, path, "bridge")?;
                }
            }
            Tree::Frontier(v) => {
                let f = v.last().unwrap();
                if n > 0 {
                    let p = f.witness(|a| Some(H::empty_root(a.level()))).unwrap().unwrap();
                    let pos = m.first() + n as u64 - 1;
                    let leaf = m.leaves[n - 1];
                    check_path(ctx, &mut m, n, pos, &leaf, MerklePath::from(p), "frontier")?;
                }
                let copy = load_frontier(&save_frontier(f));
                ctx.check(copy.as_ref() == Some(f), "frontier-encoding", || "a stored frontier differs".into())?;
            }
            Tree::Witness(v) => {
                let (_, ws) = v.last().unwrap();
                for ((pos, leaf), w) in marks.iter().zip(ws) {
                    ctx.check_eq(w.root().to_bytes(), want, "root", "root of a witness")?;
                    let Some(p) = w.path() else { return ctx.violation("witness", "no path from a witness") };
                    check_path(ctx, &mut m, n, *pos, leaf, MerklePath::from(p), "witness")?;
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
enum Msg {
    Tip(usize),
    Mine,
    Fork,
    Crash,
}

fn fixed_values(ctx: &mut Ctx) -> Res {
    let lvl = ctx.pick("fixed.level", 33);
    for l in [0, lvl, 32] {
        ctx.check_eq(H::empty_root(Level::from(l as u8)).to_bytes(), empty_root(l).to_repr(), "empty-root", &format!("empty root of level {l}"))?;
    }
    ctx.check_eq(H::empty_leaf().to_bytes(), Fp::from(2).to_repr(), "empty-root", "empty leaf")?;
    ctx.check_eq(Anchor::empty_tree().to_bytes(), empty_root(32).to_repr(), "empty-root", "anchor of the empty tree")?;
    ctx.check_eq(
        hex::encode(Anchor::empty_tree().to_bytes()),
        "ae2935f1dfd8a24aed7c70df7de3a668eb7a49b1319880dde2bbd9031ae5d82f".to_string(),
        "empty-root",
        "anchor of the empty tree",
    )?;
    // any level, any nodes
    let l = ctx.pick("combine.level", 32);
    let mut some = |ctx: &mut Ctx| match ctx.pick("combine.node", 4) {
        0 => canonical_fp(ctx, "combine"),
        1 => (-Fp::from(1 + ctx.pick("combine.neg", 3) as u64)).to_repr(),
        2 => Fp::from(ctx.pick("combine.small", 4) as u64).to_repr(),
        _ => empty_root(ctx.pick("combine.empty", 32)).to_repr(),
    };
    let (a, b) = (some(ctx), some(ctx));
    let got = H::combine(Level::from(l as u8), &H::from_bytes(&a).unwrap(), &H::from_bytes(&b).unwrap());
    ctx.check_eq(got.to_bytes(), merkle_crh(l as u8, &fp(&a).unwrap(), &fp(&b).unwrap()).to_repr(), "combine", "a parent node")
}

/// Which spends a builder takes.
fn spends(ctx: &mut Ctx) -> Res {
    let parties = make_parties(ctx, 2);
    let stranger = Party::new(ctx, "stranger");
    let mut tree = Sparse::new(Some(ctx.u64("tree.filler")));
    let mut notes = vec![];
    for _ in 0..ctx.range("notes", 1, 3) {
        let p = ctx.pick("note.party", parties.len());
        let s = SCOPES[ctx.pick("note.scope", 2)];
        let v = if ctx.pick("note.zero", 3) == 1 { 0 } else { small_value(ctx) };
        let di = diversifier_index(ctx);
        let n = mint(ctx, &parties[p].addr(di, s), v);
        let mut pos = position(ctx);
        while tree.leaves.contains_key(&pos) {
            pos = pos.wrapping_add(1);
        }
        tree.insert(pos, cmx_of(&n));
        notes.push((p, n, pos));
    }
    let a = tree.root();
    let mut b = Builder::new(BundleType::DEFAULT, anchor(&a));
    let mut accepted = 0;
    for _ in 0..ctx.range("tries", 2, 6) {
        let (p, n, pos) = notes[ctx.pick("try.note", notes.len())].clone();
        let mut sib = tree.path(pos);
        let mut at = pos;
        let mut party = &parties[p];
        let mut note = n;
        let k = ctx.pick("try", 10);
        match k {
            0 => {}
            1 => {
                let bit = ctx.pick("try.level", 32);
                at ^= 1 << bit;
            }
            2 => {
                let l = ctx.pick("try.level", 32);
                sib[l] = canonical_fp(ctx, "try.sibling");
            }
            3 => {
                let l = ctx.pick("try.level", 31);
                sib.swap(l, l + 1);
            }
            4 => {
                // another leaf's path
                let o = &notes[ctx.pick("try.other", notes.len())];
                sib = tree.path(o.2);
                at = o.2;
            }
            5 => party = &stranger,
            6 => party = &parties[ctx.pick("try.party", parties.len())],
            7 => {
                // a note like it, which is not in the tree
                let mut r = rnote(&note);
                r.rseed = ctx.bytes("try.rseed");
                note = note_from(&r).unwrap();
            }
            8 => {
                let mut r = rnote(&note);
                r.value ^= 1 << ctx.pick("try.bit", 50);
                note = note_from(&r).unwrap();
            }
            _ => {
                let l = ctx.pick("try.level", 32);
                sib[l] = empty_root(l).to_repr();
            }
        }
        let r = rnote(&note);
        let owns = SCOPES.iter().any(|s| party.r.fvk.ivk(rscope(*s)).unwrap().owns(&r.addr));
        let leads = path_root(&r.cmx().unwrap(), at, &sib) == Some(a);
        ctx.check_eq(merkle_path(at, &sib).root(note.commitment().into()).to_bytes(), path_root(&r.cmx().unwrap(), at, &sib).unwrap(), "path", "root of a path")?;
        let want = owns && (leads || r.value == 0);
        let got = b.add_spend(party.fvk.clone(), note, merkle_path(at, &sib));
        ctx.log(format!("spend try {k}: {got:?}"));
        ctx.state(&format!("{k}{}{}", owns as u8, leads as u8));
        ctx.probe(if want { "spend_accepted" } else { "spend_refused" });
        ctx.check_eq(got.is_ok(), want, "add-spend", &format!("try {k}: owned {owns}, leads to the anchor {leads}, value {}", r.value))?;
        if want {
            accepted += 1;
        }
        // The same through the other interface.
        let info = SpendInfo::new(party.fvk.clone(), note, merkle_path(at, &sib));
        ctx.check_eq(info.is_some(), owns, "spend-info", &format!("try {k}"))?;
        if let Some(i) = info {
            let rng = ctx.rng("spend.build");
            let r = build_bundle::<i64>(rng, anchor(&a), BundleType::DEFAULT, vec![i], Vec::<OutputInfo>::new());
            match &r {
                Err(BuildError::AnchorMismatch) => ctx.probe("anchor_mismatch"),
                _ => {}
            }
            ctx.check_eq(r.is_ok(), want, "bundle-spend", &format!("try {k} through the free function"))?;
        }
    }
    let rng = ctx.rng("build");
    match b.build::<i64>(rng) {
        Ok(x) => {
            let n = x.map_or(0, |(b, _)| b.actions().len());
            ctx.check_eq(n, if accepted == 0 { 0 } else { accepted.max(2) }, "spends-built", "actions for the accepted spends")
        }
        Err(e) => ctx.violation("spends-built", format!("{e:?}")),
    }
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        fixed_values(ctx)?;
        if ctx.pick("part", 2) == 1 {
            return spends(ctx);
        }
        // The tree's past.
        let base = if ctx.pick("base", 3) == 0 {
            None
        } else {
            let p = position(ctx);
            let room = u32::MAX - p;
            let p = if room < 4 { p - ctx.pick("base.back", 40) as u32 } else { p };
            let leaf = canonical_fp(ctx, "base.leaf");
            let ommers = (0..p.count_ones()).map(|_| canonical_fp(ctx, "base.ommer")).collect();
            Some((p, leaf, ommers))
        };
        ctx.log(format!("tree starts after {:?}", base.as_ref().map(|b| b.0)));
        let first = Model::new(base.clone());
        let room = first.room();
        let mut blocks: Vec<Block> = vec![];
        let mut tip: Option<usize> = None;
        let nn = ctx.range("nodes", 2, 4);
        let mut nodes: Vec<Node> = vec![];
        for i in 0..nn {
            let kind = if i < 3 { i } else { ctx.pick("node.kind", 3) };
            let mut tree = base_tree(kind, &base);
            if let Tree::Bridge(t) = &mut tree {
                t.checkpoint(0);
            }
            let mut n = Node { tree, at: vec![], disk_at: vec![], disk: vec![] };
            n.save();
            nodes.push(n);
        }
        for n in &nodes {
            n.check(ctx, &base, &blocks)?;
        }
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        let miner = nn;
        for k in 0..ctx.range("events", 4, 14) {
            let at = k as u64 * 300_000;
            match ctx.pick("event", 5) {
                0..=2 => net.timer(ctx, miner, at, Msg::Mine),
                3 => net.timer(ctx, miner, at, Msg::Fork),
                _ => {
                    let d = ctx.pick("event.node", nn);
                    net.timer(ctx, d, at, Msg::Crash)
                }
            }
        }
        let mut done = false;
        loop {
            let Some((_, d, m)) = net.next(ctx) else {
                if done {
                    break;
                }
                // Faults are over: everybody hears of the tip.
                done = true;
                net.quiesce();
                if let Some(t) = tip {
                    for d in 0..nn {
                        net.send(ctx, miner, d, Msg::Tip(t));
                    }
                }
                continue;
            };
            match m {
                Msg::Mine | Msg::Fork => {
                    let mut parent = tip;
                    if matches!(m, Msg::Fork) {
                        for _ in 0..ctx.range("fork.depth", 1, 4) {
                            parent = parent.and_then(|p| blocks[p].parent);
                        }
                    }
                    let used: u64 = parent.map_or(0, |p| chain_to(&blocks, p).iter().map(|b| blocks[*b].leaves.len() as u64).sum());
                    let n = [2, 1, 3, 0, 5, 9][ctx.pick("mine.n", 6)].min((room - used) as usize);
                    let leaves = (0..n)
                        .map(|_| {
                            let l = match ctx.pick("leaf.kind", 6) {
                                0..=3 => canonical_fp(ctx, "leaf"),
                                4 => Fp::from(ctx.pick("leaf.small", 4) as u64).to_repr(),
                                _ => (-Fp::from(1 + ctx.pick("leaf.neg", 3) as u64)).to_repr(),
                            };
                            (l, ctx.pick("leaf.mine", 3) == 1)
                        })
                        .collect();
                    let height = parent.map_or(1, |p| blocks[p].height + 1);
                    blocks.push(Block { parent, height, leaves });
                    let t = blocks.len() - 1;
                    tip = Some(t);
                    ctx.log(format!("block {t} on {parent:?} with {n} leaves"));
                    ctx.state(&format!("{parent:?}/{n}"));
                    for d in 0..nn {
                        net.send(ctx, miner, d, Msg::Tip(t));
                    }
                }
                Msg::Tip(t) => {
                    // a stale announcement may move a node back to an older branch
                    nodes[d].sync(ctx, &blocks, t)?;
                    nodes[d].check(ctx, &base, &blocks)?;
                    if ctx.pick("node.save", 2) == 0 {
                        nodes[d].save();
                    }
                }
                Msg::Crash => {
                    ctx.fault("crash.restart");
                    nodes[d].restart(ctx, &base, &blocks)?;
                    nodes[d].check(ctx, &base, &blocks)?;
                }
            }
        }
        if let Some(t) = tip {
            for n in &nodes {
                ctx.check_eq(n.at.last().copied(), Some(t), "no-progress", "a node's tip after faults stopped")?;
            }
            ctx.probe("converged");
            // Paths lead to the anchor from their own position and leaf only.
            let mut m = Model::new(base.clone());
            for b in chain_to(&blocks, t) {
                m.leaves.extend(blocks[b].leaves.iter().map(|l| l.0));
            }
            let n = m.leaves.len();
            if n > 0 {
                let k = ctx.pick("final.leaf", n);
                let pos = m.first() + k as u64;
                let root = m.root(n);
                let sib = m.path(pos, n);
                let other = m.leaves[ctx.pick("final.other", n)];
                let cases = [
                    (pos as u32, m.leaves[k]),
                    (pos as u32 ^ (1 << ctx.pick("final.bit", 32)), m.leaves[k]),
                    (pos as u32, other),
                    (ctx.u64("final.pos") as u32, m.leaves[k]),
                ];
                for (p, l) in cases {
                    let want = path_root(&l, p, &sib).unwrap();
                    let got = merkle_path(p, &sib).root(ExtractedNoteCommitment::from_bytes(&l).unwrap()).to_bytes();
                    ctx.check_eq(got, want, "path", &format!("root of a path at {p}"))?;
                    if p != pos as u32 && !(0..32).all(|h| ((p ^ pos as u32) >> h) & 1 == 0 || m.node(h, pos >> h, n as u64) == fp(&sib[h]).unwrap()) {
                        ctx.check(got != root, "foreign-position", || format!("the path of {pos} also works at {p}"))?;
                    }
                    if l != m.leaves[k] {
                        ctx.check(got != root, "foreign-leaf", || format!("another leaf has the path of {pos}"))?;
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C12",
        scenario: Box::new(S),
        quick_runs: 400,
        thorough_runs: 60_000,
        rule: "Each run has nodes keep the tree as a bridge tree with checkpoints, as stored frontiers and as incremental witnesses, from an empty or arbitrarily deep start, through blocks of any size, competing forks, stale and lost announcements and crashes; roots, checkpointed roots and paths are compared with a naive tree. Or it offers builders right and wrong keys, paths, positions and notes and compares every verdict with the definition.",
        real: &["orchard::tree (MerkleHashOrchard, MerklePath, Anchor)", "orchard::builder (spend acceptance)", "incrementalmerkletree", "bridgetree"],
        stub: &["chain", "network", "node storage"],
        assumptions: &["Sinsemilla from halo2_gadgets"],
    }
}
