//! Viewing keys written to and read from unreliable byte streams.
use std::io::{self, Read, Write};

use orchard::keys::FullViewingKey;

use crate::ctx::*;
use crate::refm::*;
use crate::runner::{Scenario, Spec};
use crate::world::*;

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
];

struct SimWriter<'a> {
    ctx: &'a mut Ctx,
    disk: &'a mut Vec<u8>,
    capacity: usize,
    faulty: bool,
    fatal: Option<io::ErrorKind>,
    calls: usize,
    /// never write a byte more than this many (crash point)
    crash_after: usize,
    crashed: bool,
}
impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        self.ctx.now_us += 100;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.faulty && self.calls < 400 {
            match self.ctx.pick("write.fault", 8) {
                1 => {
                    self.ctx.fault("io.write_eintr");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                2 if self.ctx.chance("write.fatal", 1, 4) => {
                    let k = KINDS[self.ctx.pick("write.errkind", KINDS.len())];
                    self.ctx.fault("io.write_error");
                    self.fatal = Some(k);
                    return Err(k.into());
                }
                _ => {}
            }
        }
        let mut n = buf.len();
        if self.faulty {
            n = match self.ctx.pick("write.short", 4) {
                0 => n,
                1 => 1,
                _ => 1 + self.ctx.pick("write.len", n),
            }
            .min(n);
            if n < buf.len() {
                self.ctx.fault("io.short_write");
            }
        }
        let room = self.capacity.saturating_sub(self.disk.len());
        if room == 0 {
            self.ctx.fault("io.disk_full");
            self.fatal = Some(io::ErrorKind::WriteZero);
            return Ok(0);
        }
        n = n.min(room);
        if self.disk.len() + n > self.crash_after {
            // The process dies inside this call; a prefix may have reached the disk.
            let k = self.crash_after - self.disk.len();
            self.disk.extend_from_slice(&buf[..k]);
            self.ctx.fault("crash.torn_write");
            self.crashed = true;
            self.fatal = Some(io::ErrorKind::BrokenPipe);
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        self.disk.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct SimReader<'a> {
    ctx: &'a mut Ctx,
    data: &'a [u8],
    pos: usize,
    faulty: bool,
    fatal: Option<io::ErrorKind>,
    calls: usize,
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.ctx.now_us += 100;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.faulty && self.calls < 400 {
            match self.ctx.pick("read.fault", 8) {
                1 => {
                    self.ctx.fault("io.read_eintr");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                2 if self.ctx.chance("read.fatal", 1, 4) => {
                    let k = KINDS[self.ctx.pick("read.errkind", KINDS.len())];
                    self.ctx.fault("io.read_error");
                    self.fatal = Some(k);
                    return Err(k.into());
                }
                3 | 4 | 5 if n > 1 => {
                    n = 1 + self.ctx.pick("read.len", n);
                    self.ctx.fault("io.short_read");
                }
                _ => {}
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct S;
impl Scenario for S {
    fn run(&self, ctx: &mut Ctx) -> Res {
        let n = ctx.range("keys", 1, 6);
        let mut disk: Vec<u8> = vec![];
        let mut want: Vec<[u8; 96]> = vec![];
        let faulty = ctx.pick("io.quality", 3) != 0;
        let capacity = match ctx.pick("disk.capacity", 4) {
            3 => ctx.pick("disk.bytes", 96 * n),
            _ => usize::MAX,
        };
        let crash_after = match ctx.pick("crash", 4) {
            3 => ctx.pick("crash.byte", 96 * n),
            _ => usize::MAX,
        };
        // The wallet process appends its viewing keys.
        for i in 0..n {
            let p = Party::new(ctx, "wallet");
            let bytes = p.fvk.to_bytes();
            ctx.check_eq(bytes, p.r.fvk.to_bytes(), "fvk-encoding", "viewing key encoding")?;
            let start = disk.len();
            let mut w = SimWriter { ctx: &mut *ctx, disk: &mut disk, capacity, faulty, fatal: None, calls: 0, crash_after, crashed: false };
            let r = p.fvk.write(&mut w);
            let (fatal, crashed) = (w.fatal, w.crashed);
            let written = disk[start..].to_vec();
            ctx.log(format!("write key {i}: {} bytes, fatal {fatal:?}, result {:?}", written.len(), r.as_ref().map_err(|e| e.kind())));
            ctx.state(&format!("w{}{:?}", r.is_ok(), fatal));
            ctx.check(bytes.starts_with(&written), "write-garbage", || "bytes on the stream are not a prefix of the key's encoding".into())?;
            match r {
                Ok(()) => {
                    ctx.check(fatal.is_none(), "write-swallowed-error", || format!("write reported success although the device failed with {fatal:?}"))?;
                    ctx.check(written.len() == 96, "write-short", || format!("write reported success after {} of 96 bytes", written.len()))?;
                    want.push(bytes);
                }
                Err(e) => {
                    ctx.check(fatal.is_some(), "write-spurious-error", || format!("write failed ({e}) although the device only had transient conditions"))?;
                    ctx.check_eq(e.kind(), fatal.unwrap(), "write-error-kind", "error kind reported")?;
                    ctx.probe("write_failed");
                }
            }
            if crashed {
                break;
            }
            if fatal.is_some() {
                // Give up on this record: drop the torn tail, as a wallet would on reopening.
                disk.truncate(start);
                if disk.len() >= capacity {
                    break;
                }
            }
        }
        // Restart; only the disk survives. Bit rot may have hit it, and other data follows.
        let rot = ctx.chance("rot", 1, 3) && !disk.is_empty();
        if rot {
            for _ in 0..ctx.range("rot.n", 1, 3) {
                let at = ctx.pick("rot.at", disk.len());
                match ctx.pick("rot.kind", 4) {
                    0 => disk[at] ^= 1 << ctx.pick("rot.bit", 8),
                    1 => disk[at] = 0xff,
                    2 => {
                        // a whole field
                        let f = at / 32 * 32;
                        let fill = [0u8, 0xff, 0x80][ctx.pick("rot.fill", 3)];
                        let end = disk.len().min(f + 32);
                        for b in &mut disk[f..end] {
                            *b = fill;
                        }
                    }
                    _ => {
                        // a valid but different field element / point from elsewhere
                        let f = at / 32 * 32;
                        let v = canonical_fp(ctx, "rot.field");
                        let end = disk.len().min(f + 32);
                        disk[f..end].copy_from_slice(&v[..end - f]);
                    }
                }
                ctx.fault("io.corruption");
            }
        }
        let cut = ctx.chance("truncated", 1, 4);
        if cut && !disk.is_empty() {
            let k = ctx.pick("truncated.at", disk.len());
            disk.truncate(k);
            ctx.fault("io.truncated_file");
        }
        let mut pos = 0;
        let mut i = 0;
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 60 {
                break;
            }
            let left = disk.len() - pos;
            let last_chance = guard > 40;
            let mut r = SimReader { ctx: &mut *ctx, data: &disk, pos, faulty: faulty && !last_chance, fatal: None, calls: 0 };
            let got = FullViewingKey::read(&mut r);
            let (fatal, newpos) = (r.fatal, r.pos);
            ctx.log(format!("read key {i} at {pos}: consumed {}, fatal {fatal:?}, {}", newpos - pos, match &got { Ok(_) => "ok".to_string(), Err(e) => format!("{:?}", e.kind()) }));
            ctx.state(&format!("r{}{:?}{}", got.is_ok(), fatal, left.min(96)));
            ctx.check(newpos - pos <= 96, "read-too-much", || format!("consumed {} bytes", newpos - pos))?;
            if let Some(k) = fatal {
                ctx.check(got.is_err(), "read-swallowed-error", || format!("read succeeded although the device failed with {k:?}"))?;
                ctx.check_eq(got.err().unwrap().kind(), k, "read-error-kind", "error kind reported")?;
                // Reopen and retry this record.
                ctx.probe("read_retry");
                continue;
            }
            if left < 96 {
                ctx.check(got.is_err(), "read-past-end", || format!("a key was produced from {left} bytes"))?;
                ctx.check_eq(got.err().unwrap().kind(), io::ErrorKind::UnexpectedEof, "read-eof-kind", "error kind at end of file")?;
                ctx.probe("read_eof");
                break;
            }
            let raw: [u8; 96] = disk[pos..pos + 96].try_into().unwrap();
            let model = RFvk::from_bytes(&raw);
            ctx.check(newpos - pos == 96, "read-desync", || format!("record consumed {} of 96 bytes", newpos - pos))?;
            match (&got, &model) {
                (Ok(k), Some(m)) => {
                    ctx.check_eq(k.to_bytes(), raw, "read-different-key", "key re-encoded")?;
                    ctx.check_eq(m.to_bytes(), raw, "harness-model", "model round trip")?;
                    // It is a working key, not merely the same bytes.
                    for s in SCOPES {
                        let iv = m.ivk(rscope(s)).unwrap();
                        ctx.check_eq(k.to_ivk(s).to_bytes(), iv.to_bytes(), "read-broken-key", "incoming viewing key after reload")?;
                    }
                    if !rot && !cut && i < want.len() {
                        ctx.check_eq(raw, want[i], "read-lost-key", "stored key")?;
                    }
                    ctx.probe("read_ok");
                }
                (Err(_), None) => ctx.probe("read_rejected"),
                (Ok(_), None) => ctx.violation("read-accepted-invalid", format!("accepted invalid key {}", hex::encode(raw)))?,
                (Err(e), Some(_)) => ctx.violation("read-rejected-valid", format!("rejected valid key {} ({e})", hex::encode(raw)))?,
            }
            pos += 96;
            i += 1;
        }
        Ok(())
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C10",
        scenario: Box::new(S),
        quick_runs: 16_000,
        thorough_runs: 600_000,
        rule: "Each run is a wallet process that writes 1-6 viewing keys through a simulated device, is possibly killed at an arbitrary byte, restarts and reads them back through a simulated device; the seed decides keys, split points, EINTR, hard errors, full disk, bit rot and truncation.",
        real: &["orchard::keys::FullViewingKey::{write, read, to_bytes, from_bytes, to_ivk}"],
        stub: &["byte stream and disk (std::io::Read/Write implementations)", "wallet process"],
        assumptions: &[
            "std::io::{Read, Write} contracts (write_all/read_exact semantics of the standard library)",
            "the reference model of the key encoding (sim/src/refm.rs) and the external curve and Sinsemilla libraries",
        ],
    }
}
