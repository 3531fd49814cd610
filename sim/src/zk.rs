//! Real proving and verifying keys, and a corpus of really proven bundles, made in the
//! parent process before the runs are forked from it.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::OnceLock;

use orchard::circuit::{ProvingKey, VerifyingKey};

use crate::ctx::*;
use crate::plan::*;
use crate::runner::guarded;
use crate::world::*;

static VK: OnceLock<VerifyingKey> = OnceLock::new();
static PK: OnceLock<ProvingKey> = OnceLock::new();
pub fn vk() -> &'static VerifyingKey {
    VK.get_or_init(VerifyingKey::build)
}
pub fn pk() -> &'static ProvingKey {
    PK.get_or_init(ProvingKey::build)
}

/// A bundle with a real proof, before signing.
pub struct Entry {
    pub name: String,
    pub plan: Plan,
    pub un: Unauth,
    pub proof: Vec<u8>,
    prover_seed: u64,
}
impl Entry {
    pub fn proven(&self) -> Proven {
        attach_proof(self.un.clone(), self.proof.clone())
    }
    /// The generator the proof was made with.
    pub fn prover_rng(&self) -> rand_chacha::ChaCha12Rng {
        Ctx::new(self.prover_seed, BTreeMap::new(), false).rng("prove")
    }
}
thread_local!(static CORPUS: std::cell::RefCell<&'static [Entry]> = std::cell::RefCell::new(&[]));
pub fn corpus() -> &'static [Entry] {
    CORPUS.with(|c| *c.borrow())
}

/// (bundle type, spends, outputs) as decisions of `make_plan`.
const SHAPES: &[(u64, u64, u64)] = &[
    (0, 1, 1),
    (1, 0, 1),
    (0, 2, 1),
    (1, 0, 2),
    (6, 1, 0),
    (2, 0, 1),
    (0, 7, 5),
    (4, 0, 2),
    (3, 2, 0),
    (4, 0, 0),
    (0, 1, 3),
    (7, 0, 0),
    (1, 0, 3),
    (0, 2, 2),
    (5, 0, 2),
    (0, 3, 2),
    (0, 3, 3),
];

pub fn plan_of_shape(seed: u64, shape: (u64, u64, u64)) -> (Plan, Ctx) {
    let mut ov = BTreeMap::new();
    ov.insert("type".to_string(), shape.0);
    ov.insert("n.spends".to_string(), shape.1);
    ov.insert("n.outs".to_string(), shape.2);
    let mut ctx = Ctx::new(seed, ov, false);
    let plan = make_plan(&mut ctx, PlanCfg { max_spends: 8, max_outs: 8, ..Default::default() });
    (plan, ctx)
}

/// Runs `f` in forked processes, at most `jobs` at once; None when one fails or dies.
pub fn fork_map(n: usize, jobs: usize, f: impl Fn(usize) -> Option<Vec<u8>>) -> Vec<Option<Vec<u8>>> {
    let mut out: Vec<Option<Vec<u8>>> = (0..n).map(|_| None).collect();
    let mut live: Vec<(usize, i32, std::fs::File)> = vec![];
    let mut next = 0;
    while next < n || !live.is_empty() {
        while next < n && live.len() < jobs {
            let mut fds = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::close(fds[0]);
                    let mut file = std::fs::File::from_raw_fd(fds[1]);
                    if let Ok(Some(v)) = guarded(|| f(next)) {
                        let _ = file.write_all(&[1]);
                        let _ = file.write_all(&v);
                    }
                    drop(file);
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                live.push((next, pid, std::fs::File::from_raw_fd(fds[0])));
            }
            next += 1;
        }
        // The oldest first: they take about equally long.
        let (i, pid, mut file) = live.remove(0);
        let mut b = vec![];
        unsafe {
            // Nothing arrives until the end, and then all of it.
            let mut p = libc::pollfd { fd: std::os::unix::io::AsRawFd::as_raw_fd(&file), events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, 120_000) == 0 {
                libc::kill(pid, libc::SIGKILL);
            }
        }
        let _ = file.read_to_end(&mut b);
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        if b.first() == Some(&1) {
            out[i] = Some(b[1..].to_vec());
        }
    }
    out
}

fn make_un(seed: u64, k: usize) -> Option<(Plan, Unauth)> {
    let (plan, mut ctx) = plan_of_shape(keyed_u64(seed, &format!("corpus/{k}")), SHAPES[k % SHAPES.len()]);
    let rng = ctx.rng("build");
    let custom = k % 2 == 1;
    match guarded(|| plan.build(custom, rng)) {
        Ok(Ok(Some((un, _)))) => Some((plan, un)),
        _ => None,
    }
}

/// Builds `n` proven bundles. What cannot be proved is left out (C01 is about that).
pub fn prepare_corpus(seed: u64, n: usize) {
    let _ = vk();
    let _ = pk();
    let uns: Vec<Option<(Plan, Unauth)>> = (0..n).map(|k| make_un(seed, k)).collect();
    let proofs = fork_map(n, crate::runner::jobs(), |k| {
        let (plan, un) = uns[k].as_ref()?;
        let mut ctx = Ctx::new(prover_seed(seed, k), BTreeMap::new(), false);
        let proven = un.clone().create_proof(pk(), ctx.rng("prove")).ok()?;
        let a = proven.apply_signatures(ctx.rng("sign"), [0; 32], &plan.asks()).ok()?;
        Some(a.authorization().proof().as_ref().to_vec())
    });
    let mut v = vec![];
    for (k, (u, p)) in uns.into_iter().zip(proofs).enumerate() {
        if let (Some((plan, un)), Some(proof)) = (u, p) {
            v.push(Entry { name: format!("{k}:{}", plan.shape()), plan, un, proof, prover_seed: prover_seed(seed, k) });
        }
    }
    CORPUS.with(|c| *c.borrow_mut() = Box::leak(v.into_boxed_slice()));
}
fn prover_seed(seed: u64, k: usize) -> u64 {
    keyed_u64(seed, &format!("corpus/prove/{k}"))
}
pub fn keyed_u64(seed: u64, label: &str) -> u64 {
    u64::from_le_bytes(keyed(seed, label, 8).try_into().unwrap())
}

/// Everything a full node checks about an authorized bundle on its own.
pub fn node_accepts(a: &Auth, msg: &[u8; 32]) -> bool {
    a.verify_proof(vk()).is_ok() && signatures_ok(a, msg)
}
