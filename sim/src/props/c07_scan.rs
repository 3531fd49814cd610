//! Batched, single, full and compact scanning find the same notes.
use orchard::keys::{IncomingViewingKey, PreparedIncomingViewingKey};
use orchard::note_encryption::{CompactAction, OrchardDomain};
use zcash_note_encryption::{batch, ShieldedOutput};

use crate::craft::*;
use crate::ctx::*;
use crate::plan::make_parties;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

struct Key {
    ivk: IncomingViewingKey,
    model: Fp,
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let parties = make_parties(ctx, 2);
        let pubs = published(ctx, &parties, 2, 6)?;
        for p in &pubs {
            ctx.log(&p.what);
            ctx.log_bytes("enc", &p.a.enc);
        }
        // what both wallets have: parsed actions
        let good: Vec<&Pub> = pubs.iter().filter(|p| parses(&p.a)).collect();
        let acts: Vec<RAction> = good.iter().map(|p| p.a.clone()).collect();
        // the keys of the wallet, in some order, possibly repeated, possibly none
        let nk = if ctx.chance("keys.many", 1, 12) { ctx.range("n.keys", 6, 24) } else { ctx.pick("n.keys", 6) };
        let mut keys = vec![];
        for _ in 0..nk {
            let k = ctx.pick("key", 6);
            let p = &parties[ctx.pick("key.party", parties.len())];
            let s = SCOPES[ctx.pick("key.scope", 2)];
            if k == 5 {
                let mut b = [0u8; 64];
                b[32..].copy_from_slice(&canonical_fp(ctx, "key.random"));
                keys.push(Key { ivk: IncomingViewingKey::from_bytes(&b).unwrap(), model: fp(b[32..].try_into().unwrap()).unwrap() });
                continue;
            }
            let mut ivk = device_ivk(ctx, p, s)?;
            let model = p.r.fvk.ivk(rscope(s)).unwrap();
            if k == 4 {
                // another diversifier key, same decryption key: a different key for the same notes
                let mut b = model.to_bytes();
                b[..32].copy_from_slice(&ctx.bytes::<32>("key.dk"));
                ivk = IncomingViewingKey::from_bytes(&b).unwrap();
            }
            keys.push(Key { ivk, model: model.ivk });
        }
        let ivks: Vec<IncomingViewingKey> = keys.iter().map(|k| k.ivk.clone()).collect();
        let prep: Vec<PreparedIncomingViewingKey> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
        ctx.log(format!("{} outputs, {} keys", acts.len(), keys.len()));
        ctx.state(&format!("{}/{}/{}", acts.len(), keys.len(), pubs.iter().map(|p| p.what.as_str()).collect::<Vec<_>>().join(",")));

        // The model's answers.
        let full: Vec<Option<(usize, Found)>> =
            acts.iter().map(|a| keys.iter().enumerate().find_map(|(k, x)| decrypt(&x.model, a).map(|f| (k, f)))).collect();
        let comp: Vec<Option<(usize, RNote)>> =
            acts.iter().map(|a| keys.iter().enumerate().find_map(|(k, x)| decrypt_compact(&x.model, a).map(|f| (k, f)))).collect();
        for ((f, c), p) in full.iter().zip(&comp).zip(&good) {
            match (f, c) {
                (Some(_), Some(_)) => ctx.probe("both_find"),
                (None, Some(_)) => ctx.probe("only_compact_finds"),
                (Some(_), None) => return ctx.violation("model", format!("[{}] full without compact", p.what)),
                _ => ctx.probe("neither_finds"),
            }
        }

        // Single decryption with each key in order.
        for (i, a) in acts.iter().enumerate() {
            let mut got = None;
            for (k, key) in keys.iter().enumerate() {
                let how = ctx.pick("single.how", 3);
                let r = look(ctx, how, a, &key.ivk)?;
                ctx.check(r == decrypt(&key.model, a), "single", || format!("output {i} [{}], key {k}, way {how}: {:?}", good[i].what, r.as_ref().map(|x| &x.0)))?;
                let how = ctx.pick("compact.how", 4);
                let c = look_compact(ctx, how, a, &key.ivk)?;
                ctx.check(c == decrypt_compact(&key.model, a), "single-compact", || format!("output {i} [{}], key {k}, way {how}: {c:?}", good[i].what))?;
                if let Some((n, _)) = &r {
                    ctx.check(c.as_ref() == Some(n), "compact-differs", || format!("output {i} [{}]: the compact form gives {c:?}", good[i].what))?;
                }
                if let (None, Some(r)) = (&got, r) {
                    got = Some((k, r));
                }
            }
            ctx.check(got == full[i], "single", || format!("output {i}: single scanning differs"))?;
        }

        // Batches: the outputs are cut into arbitrary batches, in arbitrary order, with
        // repetitions; several times, as several devices or after restarts.
        for round in 0..ctx.range("rounds", 2, 4) {
            let mut order = ctx.permutation("order", acts.len());
            if !order.is_empty() && ctx.chance("order.dup", 1, 3) {
                let x = order[ctx.pick("order.which", order.len())];
                order.push(x);
                ctx.fault("scan.duplicate");
            }
            if round > 0 {
                ctx.fault("scan.again");
            }
            let mut at = 0;
            loop {
                let n = [1, 2, 3, 5, 100][ctx.pick("batch.size", 5)].min(order.len() - at);
                let n = if ctx.chance("batch.empty", 1, 10) { 0 } else { n };
                let part = &order[at..at + n];
                at += n;
                let real: Vec<_> = part.iter().map(|i| action_from(&acts[*i], ()).unwrap()).collect();
                let outs: Vec<_> = real.iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
                let got = batch::try_note_decryption(&prep, &outs);
                ctx.check_eq(got.len(), part.len(), "batch-length", "results of a batch")?;
                for (g, i) in got.into_iter().zip(part) {
                    let g = match g {
                        Some((x, k)) => Some((k, settle(ctx, Some(x))?.unwrap())),
                        None => None,
                    };
                    ctx.check(g == full[*i], "batch", || {
                        format!(
                            "output {i} [{}] in batch {part:?}: {:?}, want {:?}",
                            good[*i].what,
                            g.as_ref().map(|x| (x.0, &x.1 .0)),
                            full[*i].as_ref().map(|x| (x.0, &x.1 .0))
                        )
                    })?;
                }
                let comps: Vec<_> = part
                    .iter()
                    .zip(&real)
                    .map(|(i, a)| {
                        let c = if ctx.pick("compact.form", 2) == 0 { CompactAction::from(a) } else { compact_from(&acts[*i]).unwrap() };
                        (OrchardDomain::for_compact_action(&c), c)
                    })
                    .collect();
                for ((_, c), i) in comps.iter().zip(part) {
                    let a = &acts[*i];
                    let ok = c.nullifier().to_bytes() == a.nf
                        && c.rho().to_bytes() == a.nf
                        && c.cmx().to_bytes() == a.cmx
                        && ShieldedOutput::ephemeral_key(c).0 == a.epk
                        && ShieldedOutput::cmstar_bytes(c) == a.cmx
                        && ShieldedOutput::enc_ciphertext(c)[..] == a.enc[..52];
                    ctx.check(ok, "compact-contents", || format!("the compact form of output {i} is not that of its action"))?;
                }
                let got = batch::try_compact_note_decryption(&prep, &comps);
                ctx.check_eq(got.len(), part.len(), "batch-length", "results of a compact batch")?;
                for (g, i) in got.into_iter().zip(part) {
                    let g = match g {
                        Some(((n, a), k)) => Some((k, settle(ctx, Some((n, a, [0; 512])))?.unwrap().0)),
                        None => None,
                    };
                    ctx.check(g == comp[*i], "batch-compact", || format!("output {i} [{}] in compact batch {part:?}: {g:?}, want {:?}", good[*i].what, comp[*i]))?;
                }
                if at == order.len() {
                    break;
                }
            }
            // The bundle's own interface.
            if let Some(b) = bundle_of(&order.iter().map(|i| acts[*i].clone()).collect::<Vec<_>>()) {
                let got = b.decrypt_outputs_with_keys(&ivks);
                let want: Vec<_> = order.iter().enumerate().filter_map(|(p, i)| full[*i].clone().map(|(k, f)| (p, k, f))).collect();
                ctx.check_eq(got.len(), want.len(), "bundle-scan", "notes found in a bundle")?;
                for ((i, k, n, ad, m), (wi, wk, wf)) in got.into_iter().zip(want) {
                    let f = settle(ctx, Some((n, ad, m)))?.unwrap();
                    ctx.check(i == wi && k == ivks[wk] && f == wf, "bundle-scan", || format!("bundle scan differs at action {wi}"))?;
                }
            }
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C07",
        scenario: Box::new(S),
        quick_runs: 1_500,
        thorough_runs: 40_000,
        rule: "Each run scans a mix of honest, crafted, corrupted and malformed outputs with an arbitrary list of keys (repeated, foreign, none) singly, in arbitrary batches with repetitions, through compact forms and through the bundle interface; every answer including the matching key's index is compared with reference decryption in key order.",
        real: &["orchard::note_encryption", "orchard::Bundle::decrypt_outputs_with_keys", "zcash_note_encryption (single, compact, batch)"],
        stub: &["chain", "senders other than the crate's builder (reference model)"],
        assumptions: &["reference note encryption on chacha20poly1305, blake2b and Sinsemilla"],
    }
}
