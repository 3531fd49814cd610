//! Devices scan a chain containing honest, hand-made, malicious and corrupted outputs.
use std::collections::BTreeMap;

use ff::PrimeField;
use orchard::keys::{IncomingViewingKey, Scope};

use crate::craft::*;
use crate::ctx::*;
use crate::net::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

#[derive(Clone)]
enum Msg {
    Item(usize),
    Crash,
    Rescan,
}

struct Device {
    party: usize,
    scope: Scope,
    ivk: IncomingViewingKey,
    model: Fp,
    stranger: bool,
    memory: BTreeMap<usize, Option<Found>>,
    disk: BTreeMap<usize, Option<Found>>,
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let np = ctx.range("parties", 1, 2);
        let parties: Vec<Party> = (0..np).map(|i| Party::new(ctx, &format!("p{i}"))).collect();
        let stranger = Party::new(ctx, "stranger");
        let pubs = published(ctx, &parties, 2, 5)?;
        for p in &pubs {
            ctx.log(&p.what);
            ctx.log_bytes("enc", &p.a.enc);
            ctx.state(&p.what);
        }
        let mut devs = vec![];
        let nd = ctx.range("devices", 2, 5);
        for k in 0..nd {
            let party = ctx.pick("device.party", np);
            let scope = if k == 1 { Scope::Internal } else { SCOPES[ctx.pick("device.scope", 2)] };
            let mut st = ctx.chance("device.stranger", 1, 6);
            let owner = if st { &stranger } else { &parties[party] };
            let mut ivk = device_ivk(ctx, owner, scope)?;
            let mut model = owner.r.fvk.ivk(rscope(scope)).unwrap().ivk;
            if ctx.chance("device.randomivk", 1, 8) {
                let mut b = [0u8; 64];
                b[..32].copy_from_slice(&ctx.bytes::<32>("device.dk"));
                b[32..].copy_from_slice(&canonical_fp(ctx, "device.ivk"));
                if let Some(k) = Option::from(IncomingViewingKey::from_bytes(&b)) {
                    ivk = k;
                    model = fp(b[32..].try_into().unwrap()).unwrap();
                    st = true;
                }
            }
            devs.push(Device { party, scope, ivk, model, stranger: st, memory: BTreeMap::new(), disk: BTreeMap::new() });
        }
        // The chain reaches the devices over a faulty network.
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        let source = nd;
        for d in 0..nd {
            for i in 0..pubs.len() {
                net.send(ctx, source, d, Msg::Item(i));
            }
            for _ in 0..ctx.pick("device.crashes", 3) {
                let at = ctx.range("crash.at", 0, 40) as u64 * 50_000;
                net.timer(ctx, d, at, Msg::Crash);
            }
            if ctx.chance("device.rescan", 1, 4) {
                net.timer(ctx, d, 1_000_000, Msg::Rescan);
            }
        }
        let mut rounds = 0;
        loop {
            let Some((_, d, m)) = net.next(ctx) else {
                if devs.iter().all(|d| d.memory.len() == pubs.len()) {
                    break;
                }
                net.quiesce();
                rounds += 1;
                ctx.check(rounds < 3, "no-progress", || "devices do not finish scanning".into())?;
                for d in 0..nd {
                    for i in 0..pubs.len() {
                        if !devs[d].memory.contains_key(&i) {
                            net.send(ctx, source, d, Msg::Item(i));
                        }
                    }
                }
                continue;
            };
            match m {
                Msg::Item(i) => {
                    let how = ctx.pick("how", 4);
                    let got = look(ctx, how, &pubs[i].a, &devs[d].ivk)?;
                    let want = if parses(&pubs[i].a) { decrypt(&devs[d].model, &pubs[i].a) } else { None };
                    let what = format!("device {d} (p{} {:?}), output {i} [{}], way {how}", devs[d].party, devs[d].scope, pubs[i].what);
                    ctx.log(format!("{what}: {}", got.is_some()));
                    ctx.check(got == want, "decryption-differs", || {
                        format!("{what}: found {:?}, the model finds {:?}", got.as_ref().map(|x| &x.0), want.as_ref().map(|x| &x.0))
                    })?;
                    if let (Some((n, _)), true) = (&got, true) {
                        ctx.check_eq(n.cmx(), Some(pubs[i].a.cmx), "commitment", "commitment of a found note")?;
                        ctx.probe("found");
                        if pubs[i].sent.is_none() {
                            ctx.probe("found_deviating");
                        }
                    } else if got.is_none() {
                        ctx.probe("not_found");
                    }
                    if let Some(before) = devs[d].memory.get(&i) {
                        ctx.check(*before == got, "answer-changed", || format!("{what}: differs from an earlier answer"))?;
                        ctx.probe("looked_again");
                    }
                    devs[d].memory.insert(i, got);
                    if ctx.pick("device.sync", 2) == 0 {
                        devs[d].disk = devs[d].memory.clone();
                    }
                }
                Msg::Crash => {
                    ctx.fault("crash.restart");
                    devs[d].memory = devs[d].disk.clone();
                    if !devs[d].stranger {
                        let (p, s) = (devs[d].party, devs[d].scope);
                        devs[d].ivk = device_ivk(ctx, &parties[p], s)?;
                    }
                }
                Msg::Rescan => {
                    ctx.fault("device.rescan");
                    for i in 0..pubs.len() {
                        net.send(ctx, source, d, Msg::Item(i));
                    }
                }
            }
        }
        // Exactly the addressee of every honest output has it, whole.
        for (i, p) in pubs.iter().enumerate() {
            let Some(s) = &p.sent else { continue };
            for d in &devs {
                let mine = !d.stranger && d.party == s.party && d.scope == s.scope;
                let want = if mine { Some((s.note.clone(), s.memo)) } else { None };
                ctx.check(d.memory[&i] == want, "not-as-sent", || format!("output {i}: p{} {:?} holds something other than what was sent", d.party, d.scope))?;
            }
        }
        // Whole-bundle scanning with every key.
        let acts: Vec<RAction> = pubs.iter().filter(|p| parses(&p.a)).map(|p| p.a.clone()).collect();
        if let Some(b) = bundle_of(&acts) {
            let keys: Vec<IncomingViewingKey> = devs.iter().map(|d| d.ivk.clone()).collect();
            let mut want = vec![];
            for (i, a) in acts.iter().enumerate() {
                if let Some((k, f)) = devs.iter().enumerate().find_map(|(k, d)| decrypt(&d.model, a).map(|f| (k, f))) {
                    want.push((i, k, f));
                }
            }
            let got = b.decrypt_outputs_with_keys(&keys);
            ctx.check_eq(got.len(), want.len(), "bundle-scan", "number of notes found in the whole bundle")?;
            for ((i, k, n, ad, m), (wi, wk, wf)) in got.into_iter().zip(want) {
                let f = settle(ctx, Some((n, ad, m)))?.unwrap();
                ctx.check(i == wi && k == keys[wk] && f == wf, "bundle-scan", || format!("scan of the whole bundle differs at action {wi}"))?;
            }
        }
        // What was accepted can be spent.
        let mut spent = 0;
        for d in &devs {
            for (i, f) in &d.memory {
                let Some((n, _)) = f else { continue };
                if d.stranger || spent == 2 {
                    continue;
                }
                spent += 1;
                ctx.probe("spent_received");
                spendable(ctx, &parties[d.party], n, &pubs[*i].a.cmx)?;
            }
        }
        let _ = Fp::from(1).to_repr();
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C06",
        scenario: Box::new(S),
        quick_runs: 1_600,
        thorough_runs: 60_000,
        rule: "Each run publishes honest outputs (through the crate's builder and by an independent implementation), outputs crafted with up to two deviations from the protocol, and corrupted ones; devices with different keys and key forms scan them over a faulty network with crashes and re-scans through four different interfaces. Every answer is compared with reference decryption, with what was sent, with earlier answers and other devices, and accepted notes are spent.",
        real: &["orchard::note_encryption", "orchard::note", "orchard::keys", "orchard::builder", "orchard::Bundle::decrypt_*", "zcash_note_encryption"],
        stub: &["chain", "network", "device storage", "senders other than the crate's builder (reference model)"],
        assumptions: &["reference note encryption on chacha20poly1305, blake2b and Sinsemilla"],
    }
}
