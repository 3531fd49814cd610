//! Devices holding different views of the same accounts agree on keys and addresses.
use group::GroupEncoding;
use orchard::keys::{Diversifier, FullViewingKey, IncomingViewingKey, Scope, SpendAuthorizingKey, SpendValidatingKey, SpendingKey};
use orchard::Address;

use crate::ctx::*;
use crate::net::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

#[derive(Clone)]
enum Msg {
    Fvk(usize, [u8; 96]),
    Ivk(usize, Scope, [u8; 64]),
    Addr([u8; 43]),
    Restart,
    Tick,
}

struct Account {
    seed: Vec<u8>,
    coin: u32,
    account: u32,
    r: RSk,
    model: Vec<RIvk>,
    sk: SpendingKey,
}

#[derive(Default, Clone)]
struct Device {
    // account -> view; what is in memory
    fvk: Vec<Option<FullViewingKey>>,
    ivk: Vec<[Option<IncomingViewingKey>; 2]>,
    // what is on disk
    disk_fvk: Vec<Option<[u8; 96]>>,
    disk_ivk: Vec<[Option<[u8; 64]>; 2]>,
    seen: Vec<[u8; 43]>,
}
impl Device {
    fn new(n: usize) -> Self {
        Device {
            fvk: vec![None; n],
            ivk: (0..n).map(|_| [None, None]).collect(),
            disk_fvk: vec![None; n],
            disk_ivk: vec![[None, None]; n],
            seen: vec![],
        }
    }
    fn reload(&mut self, ctx: &mut Ctx) -> Res {
        for i in 0..self.fvk.len() {
            self.fvk[i] = None;
            if let Some(b) = self.disk_fvk[i] {
                self.fvk[i] = FullViewingKey::from_bytes(&b);
                ctx.check(self.fvk[i].is_some(), "stored-fvk-refused", || "a stored full viewing key does not load".into())?;
            }
            for s in 0..2 {
                self.ivk[i][s] = None;
                if let Some(b) = self.disk_ivk[i][s] {
                    self.ivk[i][s] = Option::from(IncomingViewingKey::from_bytes(&b));
                    ctx.check(self.ivk[i][s].is_some(), "stored-ivk-refused", || "a stored incoming viewing key does not load".into())?;
                }
            }
        }
        Ok(())
    }
}

fn index(ctx: &mut Ctx) -> [u8; 11] {
    match ctx.pick("index.kind", 6) {
        0 => {
            let mut j = [0; 11];
            j[0] = ctx.pick("index.small", 8) as u8;
            j
        }
        1 => {
            let mut j = [0; 11];
            j[..4].copy_from_slice(&(ctx.u64("index.u32") as u32).to_le_bytes());
            j
        }
        2 => {
            let mut j = [0; 11];
            j[..8].copy_from_slice(&ctx.u64("index.u64").to_le_bytes());
            j
        }
        3 => [0xff; 11],
        4 => {
            let mut j = [0; 11];
            j[ctx.pick("index.byte", 11)] = 1 << ctx.pick("index.bit", 8);
            j
        }
        _ => ctx.bytes("index"),
    }
}

/// Everything a device says about an address, against the model.
fn judge(ctx: &mut Ctx, dev: &Device, accts: &[Account], raw: &[u8; 43]) -> Res {
    let addr: Option<Address> = Option::from(Address::from_raw_address_bytes(raw));
    ctx.check_eq(addr.is_some(), address_ok(raw), "address-parse", "address accepted")?;
    let Some(addr) = addr else {
        ctx.probe("address_refused");
        return Ok(());
    };
    ctx.check_eq(addr.to_raw_address_bytes(), *raw, "address-roundtrip", "address encoding")?;
    let d: [u8; 11] = raw[..11].try_into().unwrap();
    ctx.check_eq(*addr.diversifier().as_array(), d, "address-diversifier", "diversifier")?;
    for (i, a) in accts.iter().enumerate() {
        let model = &a.model;
        let owner = SCOPES.iter().zip(model).find(|(_, m)| m.owns(raw)).map(|(s, _)| *s);
        if let Some(f) = &dev.fvk[i] {
            let got = f.scope_for_address(&addr);
            ctx.state(&format!("s{:?}", got));
            ctx.check_eq(got, owner, "scope-for-address", "scope a full viewing key reports for an address")?;
            if got.is_some() {
                ctx.probe("owned_address");
            } else {
                ctx.probe("foreign_address");
            }
            for (k, s) in SCOPES.iter().enumerate() {
                let got = f.to_ivk(*s).diversifier_index(&addr).map(|j| *j.as_bytes());
                let want = if model[k].owns(raw) { Some(model[k].index(&d)) } else { None };
                ctx.check_eq(got, want, "diversifier-index", "index reported by a full viewing device")?;
            }
        }
        for (k, _) in SCOPES.iter().enumerate() {
            if let Some(v) = &dev.ivk[i][k] {
                let got = v.diversifier_index(&addr).map(|j| *j.as_bytes());
                let want = if model[k].owns(raw) { Some(model[k].index(&d)) } else { None };
                ctx.check_eq(got, want, "diversifier-index", "index reported by an incoming viewing device")?;
                if let Some(j) = got {
                    let again = v.address_at(j).to_raw_address_bytes();
                    ctx.check_eq(again, *raw, "index-address", "address at the reported index")?;
                }
            }
        }
    }
    Ok(())
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        // Accounts: some share a seed, coin type or account number.
        let n = ctx.range("accounts", 1, 3);
        let mut accts: Vec<Account> = vec![];
        let len = [32, 64, 33, 252, 128][ctx.pick("seed.len", 5)];
        let s0 = ctx.u64("seed");
        let mut seed = keyed(s0, "seed", len);
        while accts.len() < n {
            if !accts.is_empty() && ctx.chance("seed.other", 1, 3) {
                let s = ctx.u64("seed");
                seed = keyed(s, "seed", len);
            }
            let coin = [133, 1, 0, 0x7fff_ffff][ctx.pick("coin", 4)];
            let account = match ctx.pick("account", 4) {
                0 => accts.len() as u32,
                1 => 0x7fff_ffff - accts.len() as u32,
                2 => 0x100 + accts.len() as u32,
                _ => (ctx.u64("account.n") as u32) >> 1,
            };
            let Some(r) = RSk::from_seed(&seed, coin, account) else { continue };
            let id = zip32::AccountId::try_from(account).unwrap();
            let sk = match SpendingKey::from_zip32_seed(&seed, coin, id) {
                Ok(sk) => sk,
                Err(e) => return ctx.violation("zip32-refused", format!("seed refused: {e}")),
            };
            ctx.check_eq(*sk.to_bytes(), r.sk, "zip32-derivation", "spending key from seed")?;
            let bad = SpendingKey::from_zip32_seed(&seed, coin | (1 << 31), id);
            ctx.check(bad.is_err(), "zip32-bad-coin-type", || "a hardened-range coin type was accepted".into())?;
            let model = SCOPES.iter().map(|s| r.fvk.ivk(rscope(*s)).unwrap()).collect();
            accts.push(Account { seed: seed.clone(), coin, account, r, model, sk });
        }
        for i in 0..n {
            for j in 0..i {
                let same = (&accts[i].seed, accts[i].coin, accts[i].account) == (&accts[j].seed, accts[j].coin, accts[j].account);
                let eq = FullViewingKey::from(&accts[i].sk) == FullViewingKey::from(&accts[j].sk);
                ctx.check_eq(eq, same, "accounts-collide", "equality of two accounts' full viewing keys")?;
            }
        }

        // Device 0 holds the spending keys, 1 gets full viewing keys, 2 incoming ones, 3 is
        // restored from seed later.
        const SPENDER: usize = 0;
        let mut devs: Vec<Device> = (0..4).map(|_| Device::new(n)).collect();
        for (i, a) in accts.iter().enumerate() {
            let f = FullViewingKey::from(&a.sk);
            ctx.check_eq(f.to_bytes(), a.r.fvk.to_bytes(), "fvk", "full viewing key")?;
            for (k, s) in SCOPES.iter().enumerate() {
                let v = f.to_ivk(*s);
                ctx.check_eq(v.to_bytes(), a.r.fvk.ivk(rscope(*s)).unwrap().to_bytes(), "ivk", "incoming viewing key")?;
                ctx.check_eq(*f.to_ovk(*s).as_ref(), a.r.fvk.ovk(rscope(*s)), "ovk", "outgoing viewing key")?;
                devs[SPENDER].disk_ivk[i][k] = Some(v.to_bytes());
            }
            devs[SPENDER].disk_fvk[i] = Some(f.to_bytes());
        }
        devs[SPENDER].reload(ctx)?;

        // Signing authority: only the account's own key signs for the account.
        let i = ctx.pick("sign.account", n);
        let j = ctx.pick("sign.with", n);
        let ask = SpendAuthorizingKey::from(&accts[j].sk);
        let vk: SpendValidatingKey = devs[SPENDER].fvk[i].clone().unwrap().into();
        let vk_of_ask = SpendValidatingKey::from(&ask);
        let same = accts[i].r.fvk.ak == accts[j].r.fvk.ak;
        ctx.check_eq(vk == vk_of_ask, same, "validating-key", "validating key of the signing key against the viewing key's")?;
        let alpha = match ctx.pick("alpha", 4) {
            0 => Fq::from(0),
            1 => Fq::from(1),
            _ => to_fq(&ctx.bytes::<64>("alpha")),
        };
        let msg: [u8; 32] = ctx.bytes("msg");
        let mut rng = ctx.rng("sign");
        let sig = ask.randomize(&alpha).sign(&mut rng, &msg);
        let rk = vk.randomize(&alpha);
        let want_rk = (pt(&accts[i].r.fvk.ak).unwrap() + bases().spend_auth_g * alpha).to_bytes();
        ctx.check_eq(<[u8; 32]>::from(&rk), want_rk, "randomized-key", "randomized validating key")?;
        ctx.check_eq(rk.verify(&msg, &sig).is_ok(), same, "signing-authority", "signature accepted under the account's validating key")?;
        ctx.check_eq(spend_sig_ok(&want_rk, &msg, &<[u8; 64]>::from(&sig)), same, "signing-authority", "signature accepted by the reference verifier")?;

        // Export keys and addresses over a faulty network.
        let cfg = NetCfg::choose(ctx);
        let mut net: Net<Msg> = Net::new(cfg);
        for i in 0..n {
            net.send(ctx, 0, 1, Msg::Fvk(i, devs[0].disk_fvk[i].unwrap()));
            for (k, s) in SCOPES.iter().enumerate() {
                if k == 0 || ctx.chance("export.internal", 1, 2) {
                    net.send(ctx, 0, 2, Msg::Ivk(i, *s, devs[0].disk_ivk[i][k].unwrap()));
                }
            }
        }
        let ticks = ctx.range("ticks", 1, 8);
        for t in 0..ticks {
            net.timer(ctx, 0, 10_000 * t as u64, Msg::Tick);
        }
        for t in 0..ctx.pick("restarts", 3) {
            let d = ctx.pick("restart.device", 3);
            net.timer(ctx, d, 7_000 + 15_000 * t as u64, Msg::Restart);
        }
        let mut issued: Vec<[u8; 43]> = vec![];
        while let Some((_, to, m)) = net.next(ctx) {
            match m {
                Msg::Fvk(i, b) => {
                    devs[to].disk_fvk[i] = Some(b);
                    devs[to].reload(ctx)?;
                    ctx.log(format!("device {to} imported fvk {i}"));
                }
                Msg::Ivk(i, s, b) => {
                    devs[to].disk_ivk[i][(s == Scope::Internal) as usize] = Some(b);
                    devs[to].reload(ctx)?;
                    ctx.log(format!("device {to} imported ivk {i} {s:?}"));
                }
                Msg::Restart => {
                    ctx.fault("crash.restart");
                    ctx.log(format!("device {to} restarts"));
                    devs[to].reload(ctx)?;
                }
                Msg::Addr(raw) => {
                    ctx.log(format!("device {to} got address {}", hex::encode(&raw[..6])));
                    judge(ctx, &devs[to], &accts, &raw)?;
                    devs[to].seen.push(raw);
                }
                Msg::Tick => {
                    let raw = next_address(ctx, &devs, &accts, &issued)?;
                    issued.push(raw);
                    for d in 0..3 {
                        net.send(ctx, 0, d, Msg::Addr(raw));
                    }
                }
            }
        }
        // Faults stop: the restored device and everybody else judge every address again.
        for (i, a) in accts.iter().enumerate() {
            let id = zip32::AccountId::try_from(a.account).unwrap();
            let sk = SpendingKey::from_zip32_seed(&a.seed, a.coin, id).unwrap();
            let f = FullViewingKey::from(&sk);
            devs[3].disk_fvk[i] = Some(f.to_bytes());
            devs[3].disk_ivk[i] = [Some(f.to_ivk(Scope::External).to_bytes()), Some(f.to_ivk(Scope::Internal).to_bytes())];
            ctx.check_eq(devs[3].disk_fvk[i], devs[0].disk_fvk[i], "restore-disagrees", "full viewing key after restoring from seed")?;
        }
        devs[3].reload(ctx)?;
        for raw in &issued {
            for d in [1, 2, 3] {
                judge(ctx, &devs[d], &accts, raw)?;
            }
        }
        Ok(())
    }
}

fn next_address(ctx: &mut Ctx, devs: &[Device], accts: &[Account], issued: &[[u8; 43]]) -> Res<[u8; 43]> {
    let i = ctx.pick("addr.account", accts.len());
    let k = ctx.pick("addr.scope", 2);
    let s = SCOPES[k];
    let f = devs[0].fvk[i].as_ref().unwrap();
    let m = &accts[i].model[k];
    let kind = ctx.pick("addr.kind", 7);
    ctx.state(&format!("k{kind}"));
    Ok(match kind {
        0 | 1 => {
            let j = index(ctx);
            let raw = f.address_at(j, s).to_raw_address_bytes();
            ctx.check_eq(raw, m.address(&m.diversifier(&j)), "address-at", "address at an index")?;
            ctx.check_eq(f.to_ivk(s).address_at(j).to_raw_address_bytes(), raw, "address-at", "address at an index, from the incoming viewing key")?;
            let mut ju = [0u8; 8];
            ju.copy_from_slice(&j[..8]);
            if j[8..] == [0, 0, 0] {
                ctx.check_eq(f.address_at(u64::from_le_bytes(ju), s).to_raw_address_bytes(), raw, "address-at", "address at a u64 index")?;
            }
            ctx.log(format!("address of {i} {s:?} at {}", hex::encode(j)));
            raw
        }
        2 => {
            // any diversifier is legal
            let d: [u8; 11] = ctx.bytes("diversifier");
            let raw = f.address(Diversifier::from_bytes(d), s).to_raw_address_bytes();
            ctx.check_eq(raw, m.address(&d), "address", "address for a diversifier")?;
            ctx.check_eq(f.to_ivk(s).address(Diversifier::from_bytes(d)).to_raw_address_bytes(), raw, "address", "address for a diversifier, from the incoming viewing key")?;
            raw
        }
        3 if !issued.is_empty() => {
            // same diversifier, key of another account or scope
            let d: [u8; 11] = issued[ctx.pick("addr.of", issued.len())][..11].try_into().unwrap();
            ctx.fault("byzantine.mixed_address");
            m.address(&d)
        }
        4 if !issued.is_empty() => {
            // diversifier of one address with the transmission key of another
            let mut raw = issued[ctx.pick("addr.of", issued.len())];
            let d: [u8; 11] = ctx.bytes("diversifier");
            raw[..11].copy_from_slice(&d);
            ctx.fault("byzantine.mixed_address");
            raw
        }
        5 if !issued.is_empty() => {
            let mut raw = issued[ctx.pick("addr.of", issued.len())];
            let at = ctx.pick("addr.flip", 43);
            raw[at] ^= 1 << ctx.pick("addr.bit", 8);
            ctx.fault("byzantine.corrupt_address");
            raw
        }
        _ => {
            // malformed transmission keys
            let mut raw = m.address(&ctx.bytes("diversifier"));
            match ctx.pick("addr.bad", 4) {
                0 => raw[11..].fill(0),
                1 => raw[11..].fill(0xff),
                2 => {
                    // negated key: still a valid point, not ours
                    raw[42] ^= 0x80;
                }
                _ => {
                    let b: [u8; 32] = ctx.bytes("pkd");
                    raw[11..].copy_from_slice(&b);
                }
            }
            ctx.fault("byzantine.malformed_address");
            raw
        }
    })
}

pub fn spec() -> Spec {
    Spec {
        id: "C15",
        scenario: Box::new(S),
        quick_runs: 2_000,
        thorough_runs: 250_000,
        rule: "Each run derives 1-3 accounts (sharing or not sharing seed, coin type and account), exports their views to devices over a faulty network, restarts devices, issues addresses of every kind (own, arbitrary diversifier, mixed, corrupted, malformed) and compares every device's answers with a reference model.",
        real: &["orchard::keys", "orchard::zip32 derivation", "orchard::Address"],
        stub: &["devices, their disks, and the network between them"],
        assumptions: &["reference key derivation in sim/src/refm.rs", "external curve, hash, FF1 and RedDSA crates"],
    }
}
