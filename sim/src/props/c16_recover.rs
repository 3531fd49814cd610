//! Senders' devices recover what they sent from the chain; nobody else does.
use std::collections::BTreeMap;

use orchard::keys::{FullViewingKey, OutgoingViewingKey, Scope};

use crate::craft::*;
use crate::ctx::*;
use crate::net::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

#[derive(Clone)]
enum Msg {
    Item(usize),
    Crash,
}
struct Device {
    ovk: [u8; 32],
    memory: BTreeMap<usize, Option<Found>>,
    disk: BTreeMap<usize, Option<Found>>,
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let np = ctx.range("parties", 1, 2);
        let parties: Vec<Party> = (0..np).map(|i| Party::new(ctx, &format!("p{i}"))).collect();
        let pubs = published(ctx, &parties, 2, 5)?;
        for p in &pubs {
            ctx.log(&p.what);
            ctx.log_bytes("out", &p.a.out);
            ctx.state(&p.what);
        }
        // Keys: everybody's, plus the ad-hoc ones senders used, plus strangers'.
        let mut all: Vec<[u8; 32]> = vec![];
        for p in &parties {
            for s in SCOPES {
                let want = p.r.fvk.ovk(rscope(s));
                let f = FullViewingKey::from_bytes(&p.r.fvk.to_bytes()).unwrap();
                ctx.check_eq(*f.to_ovk(s).as_ref(), want, "ovk", "outgoing viewing key")?;
                all.push(want);
            }
        }
        for p in &pubs {
            if let Some(Sent { ovk: Some(o), .. }) = &p.sent {
                all.push(*o);
            }
        }
        all.push(ctx.bytes("stranger.ovk"));
        // someone trying the recipient's decryption key, or no key at all, as outgoing key
        all.push(parties[0].r.fvk.ivk(RScope::External).unwrap().to_bytes()[32..].try_into().unwrap());
        all.push([0; 32]);
        all.sort();
        all.dedup();
        let nd = ctx.range("devices", 2, 4);
        let mut devs: Vec<Device> = vec![];
        for _ in 0..nd {
            let ovk = match ctx.pick("device.kind", 3) {
                0 => parties[ctx.pick("device.party", np)].r.fvk.ovk(rscope(SCOPES[ctx.pick("device.scope", 2)])),
                _ => all[ctx.pick("device.key", all.len())],
            };
            devs.push(Device { ovk, memory: BTreeMap::new(), disk: BTreeMap::new() });
        }
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        let source = nd;
        for d in 0..nd {
            for i in 0..pubs.len() {
                net.send(ctx, source, d, Msg::Item(i));
            }
            for _ in 0..ctx.pick("device.crashes", 3) {
                let at = ctx.range("crash.at", 0, 40) as u64 * 50_000;
                net.timer(ctx, d, at, Msg::Crash);
            }
        }
        let mut rounds = 0;
        loop {
            let Some((_, d, m)) = net.next(ctx) else {
                if devs.iter().all(|d| d.memory.len() == pubs.len()) {
                    break;
                }
                net.quiesce();
                rounds += 1;
                ctx.check(rounds < 3, "no-progress", || "devices do not finish".into())?;
                for d in 0..nd {
                    for i in 0..pubs.len() {
                        if !devs[d].memory.contains_key(&i) {
                            net.send(ctx, source, d, Msg::Item(i));
                        }
                    }
                }
                continue;
            };
            match m {
                Msg::Item(i) => {
                    let how = ctx.pick("how", 3);
                    let got = look_out(ctx, how, &pubs[i].a, &devs[d].ovk)?;
                    let want = if parses(&pubs[i].a) { recover(&devs[d].ovk, &pubs[i].a) } else { None };
                    let what = format!("device {d}, output {i} [{}], way {how}", pubs[i].what);
                    ctx.log(format!("{what}: {}", got.is_some()));
                    ctx.check(got == want, "recovery-differs", || {
                        format!("{what}: recovered {:?}, the model recovers {:?}", got.as_ref().map(|x| &x.0), want.as_ref().map(|x| &x.0))
                    })?;
                    ctx.probe(if got.is_some() { "recovered" } else { "not_recovered" });
                    if let Some(before) = devs[d].memory.get(&i) {
                        ctx.check(*before == got, "answer-changed", || format!("{what}: differs from an earlier answer"))?;
                    }
                    devs[d].memory.insert(i, got);
                    if ctx.pick("device.sync", 2) == 0 {
                        devs[d].disk = devs[d].memory.clone();
                    }
                }
                Msg::Crash => {
                    ctx.fault("crash.restart");
                    devs[d].memory = devs[d].disk.clone();
                }
            }
        }
        // Honest outputs: exactly the sender's key, and the same as the recipient sees.
        for (i, p) in pubs.iter().enumerate() {
            if !parses(&p.a) {
                continue;
            }
            for ovk in &all {
                let how = ctx.pick("all.how", 3);
                let got = look_out(ctx, how, &p.a, ovk)?;
                let want = recover(ovk, &p.a);
                ctx.check(got == want, "recovery-differs", || format!("output {i} [{}], way {how}: {:?}, want {:?}", p.what, got.as_ref().map(|x| &x.0), want.as_ref().map(|x| &x.0)))?;
                if let Some(s) = &p.sent {
                    let want = if s.ovk == Some(*ovk) { Some((s.note.clone(), s.memo)) } else { None };
                    ctx.check(got == want, "not-as-sent", || format!("output {i}: recovered something other than what was sent"))?;
                    if got.is_some() {
                        let ivk = parties[s.party].fvk.to_ivk(s.scope);
                        let r = look(ctx, 0, &p.a, &ivk)?;
                        ctx.check(r == got, "recipient-differs", || format!("output {i}: sender and recipient see different notes"))?;
                        ctx.probe("sender_equals_recipient");
                    }
                }
            }
        }
        // Whole bundle, many keys in some order.
        let acts: Vec<RAction> = pubs.iter().filter(|p| parses(&p.a)).map(|p| p.a.clone()).collect();
        if let Some(b) = bundle_of(&acts) {
            let nk = ctx.pick("n.keys", all.len() + 1);
            let order = ctx.permutation("keys", all.len());
            let mut keys: Vec<[u8; 32]> = order.iter().take(nk).map(|i| all[*i]).collect();
            if nk > 0 && ctx.chance("keys.dup", 1, 3) {
                let x = keys[0];
                keys.push(x);
            }
            let ks: Vec<OutgoingViewingKey> = keys.iter().map(|k| OutgoingViewingKey::from(*k)).collect();
            let got = b.recover_outputs_with_ovks(&ks);
            let want: Vec<_> = acts.iter().enumerate().filter_map(|(i, a)| keys.iter().find_map(|k| recover(k, a).map(|f| (i, *k, f)))).collect();
            ctx.check_eq(got.len(), want.len(), "bundle-recover", "outputs recovered from a bundle")?;
            for ((i, k, n, ad, m), (wi, wk, wf)) in got.into_iter().zip(want) {
                let f = settle(ctx, Some((n, ad, m)))?.unwrap();
                ctx.check(i == wi && *k.as_ref() == wk && f == wf, "bundle-recover", || format!("differs at action {wi}"))?;
            }
            ctx.check(b.recover_output_with_ovk(acts.len(), &OutgoingViewingKey::from(all[0])).is_none(), "index", || "recovered an output that does not exist".into())?;
        }
        let _ = Scope::External;
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C16",
        scenario: Box::new(S),
        quick_runs: 3_000,
        thorough_runs: 60_000,
        rule: "Each run publishes honest outputs with and without outgoing keys, outputs crafted with up to two deviations, and corrupted ones; devices holding senders', recipients' and foreign keys recover over a faulty network with crashes through three interfaces and many-key scans; every answer is compared with reference recovery, with what was sent and with what the recipient decrypts.",
        real: &["orchard::note_encryption", "orchard::keys", "orchard::builder", "orchard::Bundle::recover_*", "zcash_note_encryption"],
        stub: &["chain", "network", "device storage", "senders other than the crate's builder (reference model)"],
        assumptions: &["reference note encryption on chacha20poly1305, blake2b and Sinsemilla"],
    }
}
