//! A ledger that rejects repeated nullifiers, and wallets on several devices that must agree
//! with it and with each other about which note is which.
use std::collections::{BTreeMap, BTreeSet};

use orchard::builder::BundleType;
use orchard::bundle::Flags;
use orchard::keys::{FullViewingKey, Scope, SpendingKey};

use crate::chain::*;
use crate::craft::*;
use crate::ctx::*;
use crate::net::*;
use crate::plan::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

#[derive(Clone)]
struct Tx {
    w: Wire,
    /// real notes spent: positions in the tree
    spends: Vec<usize>,
    serial: usize,
}

#[derive(Clone)]
enum Msg {
    Pay(usize),
    Submit(Tx),
    Sync(usize),
    Crash(usize),
    Reorg,
}

#[derive(Clone, Default)]
struct Store {
    height: usize,
    leaves: usize,
    /// position -> note, nullifier
    notes: BTreeMap<usize, (RNote, [u8; 32], bool)>,
}

struct Device {
    party: usize,
    form: usize,
    fvk: FullViewingKey,
    mem: Store,
    disk: Store,
}
fn load(ctx: &mut Ctx, p: &Party, form: usize) -> Res<FullViewingKey> {
    let k = match form {
        0 => Some(p.fvk.clone()),
        1 => FullViewingKey::from_bytes(&p.r.fvk.to_bytes()),
        2 => FullViewingKey::read(&p.r.fvk.to_bytes()[..]).ok(),
        _ => Option::<SpendingKey>::from(SpendingKey::from_bytes(p.r.sk)).map(|s| FullViewingKey::from(&s)),
    };
    match k {
        Some(k) => Ok(k),
        None => ctx.violation("key-lost", "a stored key does not load"),
    }
}

/// Notes that differ in one component only.
fn neighbours(ctx: &mut Ctx, p: &Party, n: &RNote) -> Res {
    let mut seen: BTreeMap<[u8; 32], String> = BTreeMap::new();
    let mut all = vec![("itself".to_string(), n.clone())];
    let mut x = n.clone();
    x.value ^= 1 << ctx.pick("near.bit", 64);
    all.push(("value".into(), x));
    let mut x = n.clone();
    x.rseed[ctx.pick("near.byte", 32)] ^= 1 << ctx.pick("near.bit", 8);
    all.push(("rseed".into(), x));
    let mut x = n.clone();
    x.rho = canonical_fp(ctx, "near.rho");
    all.push(("rho".into(), x));
    let mut x = n.clone();
    x.rho[ctx.pick("near.byte", 31)] ^= 1 << ctx.pick("near.bit", 8);
    all.push(("rho bit".into(), x));
    for s in SCOPES {
        let mut x = n.clone();
        x.addr = p.addr(diversifier_index(ctx), s).to_raw_address_bytes();
        if x.addr != n.addr {
            all.push((format!("address {s:?}"), x));
        }
    }
    for (what, x) in all {
        let Some(note) = note_from(&x) else { continue };
        let nf = note.nullifier(&p.fvk).to_bytes();
        ctx.check_eq(Some(nf), x.nullifier(&p.r.fvk.nk), "nullifier", &format!("nullifier of a note differing in {what}"))?;
        if let Some(o) = seen.insert(nf, what.clone()) {
            if all_equal(&o, &what) {
                continue;
            }
            return ctx.violation("nullifier-collision", format!("notes differing in {o} / {what} have the same nullifier"));
        }
    }
    // Another key sees another nullifier.
    let q = Party::new(ctx, "near.party");
    let note = note_from(n).unwrap();
    ctx.check(note.nullifier(&q.fvk) != note.nullifier(&p.fvk), "nullifier-key", || "two keys give the same nullifier".into())
}
fn all_equal(a: &str, b: &str) -> bool {
    a == b
}

fn scan(ctx: &mut Ctx, d: &mut Device, l: &Ledger, parties: &[Party], upto: usize) -> Res {
    while d.mem.height < upto {
        let (w, _) = &l.txs[d.mem.height];
        let p = &parties[d.party];
        for (i, a) in w.actions.iter().enumerate() {
            for x in d.mem.notes.values_mut().filter(|x| x.1 == a.nf) {
                x.2 = true;
            }
            let pos = d.mem.leaves + i;
            let mut got: Option<RNote> = None;
            for s in SCOPES {
                let ivk = d.fvk.to_ivk(s);
                let how = ctx.pick("scan.how", 7);
                let r = match how {
                    0..=3 => look(ctx, how, a, &ivk)?.map(|x| x.0),
                    4 | 5 => look_compact(ctx, how, a, &ivk)?,
                    _ => {
                        let c = ctx.pick("scan.compact", 4);
                        let full = look(ctx, 0, a, &ivk)?.map(|x| x.0);
                        let comp = look_compact(ctx, c, a, &ivk)?;
                        ctx.check(full == comp, "paths-differ", || "compact and full scanning find different notes".into())?;
                        full
                    }
                };
                if r.is_some() {
                    got = r;
                }
            }
            // What the sender recovers is the same note.
            if let Some(n) = &got {
                let o = p.r.fvk.ovk(RScope::External);
                if let Some((m, _)) = look_out(ctx, 0, a, &o)? {
                    ctx.probe("recovered_own");
                    ctx.check(m == *n, "paths-differ", || "recovered and received notes differ".into())?;
                    let x = note_from(&m).unwrap().nullifier(&d.fvk);
                    ctx.check_eq(x.to_bytes(), n.nullifier(&p.r.fvk.nk).unwrap(), "nullifier", "nullifier of a recovered note")?;
                }
            }
            let model = l.notes.iter().find(|m| m.pos == pos && m.owner == d.party);
            ctx.check(got == model.map(|m| m.r.clone()), "scan", || format!("action {i} of transaction {}", d.mem.height))?;
            if let Some(n) = got {
                ctx.check_eq(n.rho, a.nf, "rho", "a note's identifier is the nullifier revealed in its action")?;
                let Some(note) = note_from(&n) else { return ctx.violation("note-lost", "a received note does not rebuild") };
                let nf = note.nullifier(&d.fvk).to_bytes();
                ctx.check_eq(nf, model.unwrap().nf, "nullifier", "nullifier of a received note")?;
                d.mem.notes.insert(pos, (n, nf, false));
                ctx.probe("received");
            }
        }
        d.mem.leaves += w.actions.len();
        d.mem.height += 1;
    }
    Ok(())
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let np = ctx.range("parties", 1, 3);
        let parties: Vec<Party> = (0..np).map(|i| Party::new(ctx, &format!("p{i}"))).collect();
        let mut ideal = Ideal::default();
        let mut l = Ledger::new();
        let mut history: Vec<(Ledger, BTreeSet<usize>, BTreeSet<usize>)> = vec![];
        let mut devs = vec![];
        for i in 0..np {
            for _ in 0..ctx.range("devices", 1, 2) {
                let form = ctx.pick("device.form", 4);
                let fvk = load(ctx, &parties[i], form)?;
                devs.push(Device { party: i, form, fvk, mem: Store::default(), disk: Store::default() });
            }
        }
        let mut seen_nf: BTreeMap<[u8; 32], String> = BTreeMap::new();
        // spent notes (tree positions) and applied transactions, by what they are
        let mut spent: BTreeSet<usize> = BTreeSet::new();
        let mut applied: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..ctx.range("fund", 1, 2) {
            let n = ctx.range("fund.outs", 1, 3);
            let outs = (0..n)
                .map(|_| {
                    let mut o = make_out(ctx, &parties, false);
                    o.ovk = Some(parties[o.party].r.fvk.ovk(RScope::External)).filter(|_| ctx.pick("fund.ovk", 2) == 1);
                    o
                })
                .collect();
            history.push((l.clone(), spent.clone(), applied.clone()));
            fund(ctx, &mut l, &mut ideal, &parties, outs)?;
        }
        for n in &l.notes {
            if let Some(o) = seen_nf.insert(n.nf, format!("{}", n.pos)) {
                return ctx.violation("nullifier-collision", format!("{o} {}", n.pos));
            }
        }
        {
            let k = ctx.pick("near.note", l.notes.len());
            if let Some(n) = l.notes.get(k).cloned() {
                neighbours(ctx, &parties[n.owner], &n.r)?;
            }
        }

        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        let nd = devs.len();
        let node = nd;
        for k in 0..ctx.range("events", 4, 16) {
            let at = ctx.range("event.at", 0, 40) as u64 * 100_000 + k as u64;
            let d = ctx.pick("event.device", nd);
            let m = match ctx.pick("event", 8) {
                0..=2 => Msg::Pay(d),
                3 | 4 => Msg::Sync(d),
                5 => Msg::Crash(d),
                6 => Msg::Reorg,
                _ => Msg::Pay(d),
            };
            net.timer(ctx, d, at, m);
        }
        let mut serial = 0;
        let mut revealed: BTreeMap<[u8; 32], usize> = BTreeMap::new();
        loop {
            let Some((_, _, m)) = net.next(ctx) else { break };
            match m {
                Msg::Sync(d) => {
                    let upto = l.txs.len();
                    scan(ctx, &mut devs[d], &l, &parties, upto)?;
                    if ctx.pick("device.sync", 2) == 0 {
                        devs[d].disk = devs[d].mem.clone();
                    }
                }
                Msg::Crash(d) => {
                    ctx.fault("crash.restart");
                    devs[d].mem = if ctx.chance("crash.rescan", 1, 3) {
                        ctx.fault("crash.lost_disk");
                        Store::default()
                    } else {
                        devs[d].disk.clone()
                    };
                    devs[d].form = ctx.pick("device.form", 4);
                    devs[d].fvk = load(ctx, &parties[devs[d].party], devs[d].form)?;
                    for (n, nf, _) in devs[d].mem.notes.values() {
                        let x = note_from(n).unwrap().nullifier(&devs[d].fvk).to_bytes();
                        ctx.check_eq(x, *nf, "nullifier", "nullifier after a restart")?;
                    }
                }
                Msg::Reorg => {
                    if history.len() > 1 {
                        let k = ctx.range("reorg.depth", 1, history.len() - 1);
                        let at = history.len() - k;
                        let (a, b, c) = history[at].clone();
                        (l, spent, applied) = (a, b, c);
                        history.truncate(at);
                        ctx.fault("chain.reorg");
                        ctx.log(format!("reorganization by {k}"));
                        for d in devs.iter_mut() {
                            // wallets go back to before the fork
                            for s in [&mut d.mem, &mut d.disk] {
                                if s.height > l.txs.len() {
                                    *s = Store::default();
                                }
                            }
                        }
                    }
                }
                Msg::Pay(d) => {
                    let here = devs[d].mem.leaves;
                    if here == 0 || !l.anchors.contains_key(&l.tree.root_at(here.min(l.tree.leaves.len()))) || ctx.pick("pay.syncfirst", 2) == 0 {
                        let upto = l.txs.len();
                        scan(ctx, &mut devs[d], &l, &parties, upto)?;
                    }
                    let dev = &devs[d];
                    // The wallet's own view, which may be stale: it may spend what another
                    // device has spent, and a careless one what it spent itself.
                    let careless = ctx.chance("pay.careless", 1, 4);
                    let mine: Vec<(usize, RNote, [u8; 32])> =
                        dev.mem.notes.iter().filter(|(_, x)| careless || !x.2).map(|(p, x)| (*p, x.0.clone(), x.1)).collect();
                    let at = dev.mem.leaves;
                    let mut picks = vec![];
                    if !mine.is_empty() {
                        for _ in 0..ctx.range("pay.spends", 1, 3) {
                            let k = ctx.pick("pay.note", mine.len());
                            if careless || !picks.contains(&k) {
                                picks.push(k);
                            }
                        }
                    }
                    let party = dev.party;
                    let lives: Vec<Live> = picks
                        .iter()
                        .map(|k| {
                            let (pos, r, nf) = mine[*k].clone();
                            Live { owner: party, scope: Scope::External, r, pos, nf, spent: false }
                        })
                        .collect();
                    let total: u64 = lives.iter().map(|x| x.r.value).sum();
                    let mut outs = vec![];
                    for _ in 0..ctx.pick("pay.outs", 3) {
                        let mut o = make_out(ctx, &parties, false);
                        o.value %= total + 1;
                        outs.push(o);
                    }
                    let ty = BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true };
                    let plan = plan_tx(&mut l, &parties, ty, at, &lives, outs);
                    let custom = ctx.pick("custom", 2) == 1;
                    let rng = ctx.rng("pay");
                    let Some((b, meta)) = plan.build_ok(ctx, custom, rng)? else { continue };
                    for (k, s) in lives.iter().enumerate() {
                        let Some(i) = meta.spend_action_index(k) else { return ctx.violation("spend-location", "no action") };
                        ctx.check_eq(b.actions()[i].nullifier().to_bytes(), s.nf, "revealed", "nullifier revealed by a spend")?;
                    }
                    serial += 1;
                    let a = finish(ctx, &mut ideal, &plan, b, b"pay")?;
                    let w = Wire::of(&a);
                    let mut dummies = 0;
                    for x in &w.actions {
                        let real = lives.iter().any(|s| s.nf == x.nf);
                        if !real {
                            dummies += 1;
                            if let Some(o) = revealed.insert(x.nf, serial) {
                                return ctx.violation("dummy-nullifier", format!("dummy nullifier of transaction {serial} was revealed by {o}"));
                            }
                        }
                    }
                    ctx.log(format!("device {d} pays: spends {:?}, {} outputs, {dummies} dummies, anchor at {at}", lives.iter().map(|x| x.pos).collect::<Vec<_>>(), plan.outs.len()));
                    let tx = Tx { w, spends: lives.iter().map(|x| x.pos).collect(), serial };
                    // The whole transaction travels as bytes.
                    net.send(ctx, d, node, Msg::Submit(tx));
                }
                Msg::Submit(tx) => {
                    let w = match Wire::decode(&tx.w.encode()) {
                        Some(w) => w,
                        None => return ctx.violation("wire", "a transaction does not decode"),
                    };
                    let mut ids = BTreeSet::new();
                    let twice = tx.spends.iter().any(|p| !ids.insert(*p) || spent.contains(p)) || applied.contains(&tx.serial);
                    let v = l.judge(&ideal, &w, b"pay");
                    let want = if !l.anchors.contains_key(&w.anchor) {
                        Verdict::UnknownAnchor
                    } else if twice {
                        Verdict::DoubleSpend
                    } else {
                        Verdict::Accepted
                    };
                    ctx.log(format!("transaction {}: {v:?}", tx.serial));
                    ctx.probe(&format!("{v:?}"));
                    ctx.state(&format!("{v:?}{:?}", tx.spends));
                    ctx.check_eq(v, want, "ledger-verdict", &format!("verdict on transaction {} spending {:?}", tx.serial, tx.spends))?;
                    if !w.actions.is_empty() && ctx.chance("alias", 1, 3) {
                        // A cheating spender writes a revealed nullifier in another way: x + p, x + 2p or x + 3p.
                        let mut x = w.clone();
                        let k = ctx.pick("alias.action", x.actions.len());
                        let mut nf = Some(x.actions[k].nf);
                        for _ in 0..=ctx.pick("alias.times", 3) {
                            nf = nf.and_then(|n| noncanonical_fp(&n)).or(nf);
                        }
                        let nf = nf.unwrap();
                        if nf != x.actions[k].nf {
                            ctx.fault("alias.nullifier");
                            x.actions[k].nf = nf;
                            let ok = action_from(&x.actions[k], ()).is_some() || compact_from(&x.actions[k]).is_some();
                            ctx.check(!ok && l.judge(&ideal, &x, b"pay") == Verdict::Malformed, "nullifier-alias", || format!("the nullifier of action {k} of transaction {} is read from a second encoding", tx.serial))?;
                        }
                    }
                    if v == Verdict::Accepted {
                        history.push((l.clone(), spent.clone(), applied.clone()));
                        let before = l.notes.len();
                        l.apply(&w, b"pay", &parties);
                        for n in &l.notes[before..] {
                            let id = format!("{}/{}", tx.serial, n.pos);
                            if let Some(o) = seen_nf.insert(n.nf, id.clone()) {
                                // the same transaction again after a reorganization is the same note
                                ctx.check(o.split('/').next() == id.split('/').next(), "nullifier-collision", || format!("notes {o} and {id}"))?;
                            }
                        }
                        spent.extend(tx.spends.iter().copied());
                        applied.insert(tx.serial);
                    }
                }
            }
        }
        // Faults are over: every device catches up and knows exactly its unspent notes.
        for d in 0..nd {
            let upto = l.txs.len();
            scan(ctx, &mut devs[d], &l, &parties, upto)?;
            let dev = &devs[d];
            let have: Vec<([u8; 32], bool)> = dev.mem.notes.values().map(|x| (x.1, x.2)).collect();
            let want: Vec<([u8; 32], bool)> = l.notes.iter().filter(|n| n.owner == dev.party).map(|n| (n.nf, spent.contains(&n.pos))).collect();
            ctx.check(have == want, "wallet-view", || format!("device {d} of p{}: {} notes, the ledger has {}", dev.party, have.len(), want.len()))?;
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C05",
        scenario: Box::new(S),
        quick_runs: 650,
        thorough_runs: 30_000,
        rule: "Each run is a history of a ledger that rejects repeated nullifiers and of wallets on several devices (different key forms, stale views, careless double spends, crashes, re-scans, reorganizations, lossy duplicating network). Verdicts are compared with a model that identifies notes by their tree position, nullifiers with an independent computation, and notes differing in a single component must have different nullifiers.",
        real: &["orchard::note (nullifiers, note parts)", "orchard::keys", "orchard::builder", "orchard::note_encryption", "orchard::bundle", "redpallas"],
        stub: &["proof system (ideal functionality)", "ledger and wallet storage", "network"],
        assumptions: &["reference nullifier derivation on Poseidon, Sinsemilla and pasta_curves"],
    }
}
