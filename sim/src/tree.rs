//! The whitelist tool (real code) with its file in a scratch folder, torn and failing writes, damaged files, and the
//! real program judging the proofs it hands out.
use crate::abi::*;
use crate::build;
use crate::exec::*;
use crate::gen::{PAYER, WALLETS};
use crate::model::*;
use crate::rng::*;
use crate::world::*;
use merkle_tree::config_merkle_tree::ConfigMerkleTree;
use merkle_tree::tree_node::TreeNode;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FileOp {
    /// the tool writes the tree; the process then goes on normally
    Write,
    /// another list is written to the same path first / in between
    WriteOther { n: u32, salt: u64 },
    /// the disk takes only so many bytes (per mille of what is needed)
    Full { permille: u32 },
    /// the device is full from the start
    DevFull,
    /// crash: only a prefix of the file is on disk (per mille)
    Torn { permille: u32 },
    /// a damaged byte: position (per mille of the length, plus an offset) and the mask
    Flip { permille: u32, off: u32, mask: u8 },
    /// one decimal digit of the stored numbers is changed
    Digit { nth: u32, to: u8 },
    /// a stretch of the file is zeroed / repeated
    Zero { permille: u32, len: u32 },
    /// two entries' stored values are exchanged
    SwapLines { a: u32, b: u32 },
    /// restart: only the file survives, it is loaded again
    Load,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TreeSpec {
    pub salt: u64,
    pub version: u64,
    pub nreg: u8,
    /// (owner, registry, cap); owner is a wallet number
    pub entries: Vec<(u8, u8, u64)>,
    /// further listed owners who never show up on chain (makes the tree deep)
    #[serde(default)]
    pub filler: u32,
    pub ops: Vec<FileOp>,
    pub probes: Vec<(u8, u8, u64, u8)>,
}

/// largest deposit cap the simulated sale accepts
const MAXC: u64 = 1 << 62;

pub fn generate(r: &mut Rng) -> TreeSpec {
    let nreg = 1 + r.below(5) as u8;
    let n = match r.below(6) {
        0 => r.below(3),
        1 => 1 + r.below(4),
        2 => 1 + r.below(9),
        3 => *r.pick(&[1u64, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        4 => 1 + r.below(40),
        _ => 1 + r.below(120),
    };
    let owners = match r.below(3) {
        0 => 1 + n.max(1) / 2,
        1 => n.max(1),
        _ => 240,
    }
    .min(240);
    let mut entries: Vec<(u8, u8, u64)> = vec![];
    for _ in 0..n {
        let o = 4 + r.below(owners) as u8;
        let g = if r.pct(97) { r.below(nreg as u64) as u8 } else { r.below(256) as u8 };
        let c = match r.below(8) {
            0 => 1,
            1 => MAXC,
            2 => MAXC + 1,
            3 => u64::MAX,
            4 => 0,
            5 => 1 + r.below(1_000_000),
            _ => 1 + (r.below(MAXC) >> r.below(62)),
        };
        if r.pct(6) {
            if let Some(x) = entries.last().copied() {
                // the same owner again, with something changed or not
                entries.push((x.0, if r.pct(50) { x.1 } else { g }, if r.pct(50) { x.2 } else { c }));
                continue;
            }
        }
        entries.push((o, g, c));
    }
    let mut ops = vec![];
    for _ in 0..1 + r.below(6) {
        match r.below(12) {
            0 | 1 => ops.push(FileOp::Write),
            2 => ops.push(FileOp::WriteOther { n: 1 + r.below(40) as u32, salt: r.next() }),
            3 => ops.push(FileOp::Full { permille: r.below(1001) as u32 }),
            4 => ops.push(FileOp::DevFull),
            5 => {
                ops.push(FileOp::Write);
                ops.push(FileOp::Torn { permille: r.below(1001) as u32 });
            }
            6 => {
                ops.push(FileOp::Write);
                ops.push(FileOp::Flip { permille: r.below(1001) as u32, off: r.below(64) as u32, mask: 1 << r.below(8) });
            }
            7 | 8 => {
                ops.push(FileOp::Write);
                ops.push(FileOp::Digit { nth: r.below(100_000) as u32, to: r.below(10) as u8 });
            }
            9 => {
                ops.push(FileOp::Write);
                ops.push(FileOp::Zero { permille: r.below(1001) as u32, len: 1 + r.below(512) as u32 });
            }
            10 => {
                ops.push(FileOp::Write);
                ops.push(FileOp::SwapLines { a: r.below(100_000) as u32, b: r.below(100_000) as u32 });
            }
            _ => ops.push(FileOp::WriteOther { n: 1 + r.below(200) as u32, salt: r.next() }),
        }
        ops.push(FileOp::Load);
    }
    if r.pct(50) {
        ops.push(FileOp::Write);
        ops.push(FileOp::Load);
    }
    let mut probes = vec![];
    for _ in 0..r.below(6) {
        let (o, g, c) = if entries.is_empty() || r.pct(20) {
            (4 + r.below(240) as u8, r.below(nreg as u64) as u8, 1 + r.below(1000))
        } else {
            *r.pick(&entries)
        };
        let (mut o, mut g, mut c) = (o, g, c);
        match r.below(5) {
            0 => c = c.wrapping_add(1),
            1 => c = 1 + (r.below(MAXC) >> r.below(62)),
            2 => c ^= 1 << r.below(62),
            3 => g = g.wrapping_add(1) % nreg,
            _ => o = 4 + r.below(240) as u8,
        }
        probes.push((o, g, c, r.below(256) as u8));
    }
    let version = match r.below(4) {
        0 => 0,
        1 => r.next(),
        _ => r.below(5),
    };
    let filler = match r.below(60) {
        0 => 130 + r.below(400) as u32,
        1 => *r.pick(&[250u32, 256, 257, 511, 512, 513, 1024, 1500, 2047, 2100]),
        _ => 0,
    };
    TreeSpec { salt: r.next(), version, nreg, entries, filler, ops, probes }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    crate::bank::QUIET_PANIC.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    crate::bank::QUIET_PANIC.with(|q| q.set(false));
    r
}

type Want = BTreeMap<Pubkey, (u8, u64)>;

fn nodes_of(t: &ConfigMerkleTree) -> Vec<(Pubkey, u8, u64)> {
    let mut v: Vec<_> = t.tree_nodes.iter().map(|n| (n.escrow_owner, n.registry_index, n.deposit_cap)).collect();
    v.sort();
    v
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let base = std::env::var("PSIM_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = PathBuf::from(base).join(format!("psim-tree-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    Scratch(p)
}

fn with_limit<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let prev = libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let new = libc::rlimit { rlim_cur: bytes, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        libc::signal(libc::SIGXFSZ, prev);
        r
    }
}

pub fn judge(s: &TreeSpec, verbose: bool) -> (Option<Viol>, Stats, u64) {
    let mut st = Stats::default();
    let mut log = 0u64;
    let v = judge_in(s, verbose, &mut st, &mut log).err();
    (v, st, log)
}

fn bad(class: &str, msg: String) -> Viol {
    Viol { tags: t(&[25]), class: format!("tree:{class}"), msg }
}

fn judge_in(s: &TreeSpec, verbose: bool, st: &mut Stats, log: &mut u64) -> Result<(), Viol> {
    let cfg = WorldCfg {
        salt: s.salt,
        t0: 1_700_000_000,
        wallets: WALLETS,
        mints: (0..2)
            .map(|i| MintCfg { kind: SPL, decimals: 6, bps: 0, maxfee: 0, ext: 0, big: 1 << (50 + i), small: 1 << 40 })
            .collect(),
        presales: vec![PSlot { base: 0, bm: 0, qm: 1, creator: 1 }],
    };
    let w = World::new(cfg);
    let key = |o: u8| w.key(K::W(o));
    let mut note = |x: &str| {
        *log = mix(*log);
        for b in x.bytes() {
            *log = mix(*log ^ b as u64);
        }
        if verbose {
            eprintln!("{x}");
        }
    };
    // the tool builds the tree
    let node = |k: Pubkey, g: u8, c: u64| TreeNode { escrow_owner: k, registry_index: g, deposit_cap: c, proof: None };
    let mut fr = Rng::new(s.salt ^ 0xf111);
    let others: Vec<TreeNode> = (0..s.filler)
        .map(|_| {
            let mut k = [0u8; 32];
            for b in k.chunks_mut(8) {
                b.copy_from_slice(&fr.next().to_le_bytes());
            }
            node(Pubkey::new_from_array(k), fr.below(s.nreg as u64) as u8, 1 + fr.below(MAXC))
        })
        .collect();
    let (before, after) = others.split_at(others.len() * (s.salt as usize % 3) / 2);
    let mut list: Vec<TreeNode> = before.to_vec();
    list.extend(s.entries.iter().map(|(o, g, c)| node(key(*o), *g, *c)));
    list.extend(after.to_vec());
    let mut want: Want = BTreeMap::new();
    for n in &list {
        want.insert(n.escrow_owner, (n.registry_index, n.deposit_cap));
    }
    st.hit(&format!("tree.size.{}", (want.len() as f64 + 1.0).log2().floor() as u64));
    if want.len() != list.len() {
        st.hit("tree.duplicates");
    }
    let built = quiet(|| ConfigMerkleTree::new(list.clone(), s.version).map_err(|e| e.to_string()));
    if want.is_empty() {
        st.hit("tree.empty");
        if let Some(Ok(t)) = built {
            if !t.tree_nodes.is_empty() {
                return Err(bad("build", "an empty list produced entries".into()));
            }
        }
        note("empty");
        return Ok(());
    }
    let tree = match built {
        Some(Ok(t)) => t,
        Some(Err(e)) => return Err(bad("build", format!("{} entries refused: {e}", s.entries.len()))),
        None => return Err(bad("build", format!("building a tree of {} entries crashed", s.entries.len()))),
    };
    note(&format!("root {}", hex(&tree.merkle_root)));
    st.states.insert(u64::from_le_bytes(tree.merkle_root[..8].try_into().unwrap()));
    let expect: Vec<(Pubkey, u8, u64)> = want.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
    let same = |t: &ConfigMerkleTree| -> Option<String> {
        if nodes_of(t) != expect {
            return Some("entries differ from the list".into());
        }
        if t.version != s.version {
            return Some(format!("version {} became {}", s.version, t.version));
        }
        if t.max_num_nodes != want.len() as u64 {
            return Some(format!("{} entries but max_num_nodes {}", want.len(), t.max_num_nodes));
        }
        None
    };
    if let Some(d) = same(&tree) {
        return Err(bad("entries", d));
    }
    if !matches!(quiet(|| tree.verify_proof().is_ok()), Some(true)) {
        return Err(bad("verify", "verification of a fresh tree fails".into()));
    }
    for (k, v) in want.iter().take(300) {
        let n = quiet(|| tree.get_node(k));
        if n.as_ref().map(|n| (n.escrow_owner, n.registry_index, n.deposit_cap)) != Some((*k, v.0, v.1)) {
            return Err(bad("lookup", format!("lookup of a listed owner gives {n:?}")));
        }
    }
    for k in [Pubkey::default(), PROGRAM, w.key(K::P(0))] {
        if !want.contains_key(&k) {
            if let Some(n) = quiet(|| tree.get_node(&k)) {
                return Err(bad("lookup", format!("lookup of an unlisted owner gives {n:?}")));
            }
        }
    }
    let map = tree.convert_to_hashmap();
    if map.len() != want.len() || want.iter().any(|(k, v)| map.get(k).map(|n| (n.registry_index, n.deposit_cap)) != Some(*v)) {
        return Err(bad("lookup", "map of entries differs from the list".into()));
    }
    if tree.get_merkle_root_config_pubkey(w.key(K::P(0)), &PROGRAM) != w.key(K::Mr(0, s.version)) {
        return Err(bad("address", "the tool derives another address for the on-chain root".into()));
    }

    // the tree goes to disk and comes back
    let dir = scratch();
    let path = dir.0.join("tree.json");
    let _ = std::fs::remove_file(&path);
    let full = serde_json::to_string_pretty(&tree).map(|x| x.len()).unwrap_or(0) as u64;
    let mut stored: Option<bool> = None; // Some(true): our tree, intact; Some(false): something else
    let mut loaded: Vec<ConfigMerkleTree> = vec![];
    let mut wrong: Vec<(Pubkey, u8, u64, Vec<[u8; 32]>)> = vec![];
    let mut damaged = false;
    for op in &s.ops {
        st.tx += 1;
        match op {
            FileOp::Write => {
                let ok = quiet(|| tree.write_to_file(&path)).is_some();
                note(&format!("write {ok}"));
                if !ok {
                    return Err(bad("write", "writing the tree failed without any fault".into()));
                }
                stored = Some(true);
                damaged = false;
                st.hit("io.write");
            }
            FileOp::WriteOther { n, salt } => {
                let mut r = Rng::new(*salt);
                let other: Vec<TreeNode> = (0..*n)
                    .map(|i| TreeNode { escrow_owner: key(4 + (i % 240) as u8), registry_index: 0, deposit_cap: r.next(), proof: None })
                    .collect();
                let ok = quiet(|| {
                    let t = ConfigMerkleTree::new(other, s.version.wrapping_add(1)).ok()?;
                    t.write_to_file(&path);
                    Some(())
                })
                .flatten()
                .is_some();
                note(&format!("write other {ok}"));
                stored = Some(false);
                damaged = false;
                st.hit("io.write-other");
            }
            FileOp::Full { permille } => {
                let lim = full * *permille as u64 / 1000;
                let ok = with_limit(lim, || quiet(|| tree.write_to_file(&path)).is_some());
                note(&format!("write limited to {lim}: {ok}"));
                if ok {
                    stored = Some(true);
                    damaged = false;
                    if lim < full {
                        // it said it was written: it must load
                        match quiet(|| ConfigMerkleTree::new_from_file(&path)) {
                            Some(Ok(t)) if same(&t).is_none() => {}
                            _ => return Err(bad("lost-write", format!("the disk took {lim} of {full} bytes, yet writing reported success"))),
                        }
                    }
                } else {
                    stored = None;
                    damaged = true;
                }
                st.hit("fault.disk-full");
            }
            FileOp::DevFull => {
                // reached through a link, so that a tool that replaces its target replaces only the link
                let dev = dir.0.join("full");
                let _ = std::os::unix::fs::symlink("/dev/full", &dev);
                let ok = quiet(|| tree.write_to_file(&dev)).is_some();
                note(&format!("devfull {ok}"));
                let link = std::fs::symlink_metadata(&dev).map(|m| m.file_type().is_symlink()).unwrap_or(false);
                let lost = link || quiet(|| ConfigMerkleTree::new_from_file(&dev).map(|t| same(&t).is_none())).and_then(|x| x.ok()) != Some(true);
                if ok && lost {
                    return Err(bad("lost-write", "nothing could be written, yet writing reported success".into()));
                }
                st.hit("fault.disk-error");
            }
            FileOp::Torn { permille } => {
                if let Ok(b) = std::fs::read(&path) {
                    let n = b.len() * *permille as usize / 1000;
                    if n < b.len() {
                        let _ = std::fs::write(&path, &b[..n]);
                        damaged = true;
                        stored = None;
                        st.hit("fault.torn-write");
                    }
                }
            }
            FileOp::Flip { permille, off, mask } => {
                if let Ok(mut b) = std::fs::read(&path) {
                    if !b.is_empty() {
                        let i = (b.len() * *permille as usize / 1000 + *off as usize) % b.len();
                        b[i] ^= *mask;
                        let _ = std::fs::write(&path, &b);
                        damaged = true;
                        stored = None;
                        st.hit("fault.bit-flip");
                    }
                }
            }
            FileOp::Digit { nth, to } => {
                if let Ok(mut b) = std::fs::read(&path) {
                    let ds: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                    if !ds.is_empty() {
                        b[ds[*nth as usize % ds.len()]] = b'0' + to;
                        let _ = std::fs::write(&path, &b);
                        damaged = true;
                        stored = None;
                        st.hit("fault.digit-damage");
                    }
                }
            }
            FileOp::Zero { permille, len } => {
                if let Ok(mut b) = std::fs::read(&path) {
                    let i = b.len() * *permille as usize / 1000;
                    let hi = (i + *len as usize).min(b.len());
                    if i < hi {
                        b[i..hi].iter_mut().for_each(|x| *x = 0);
                        let _ = std::fs::write(&path, &b);
                        damaged = true;
                        stored = None;
                        st.hit("fault.zeroed-range");
                    }
                }
            }
            FileOp::SwapLines { a, b: bb } => {
                if let Ok(x) = std::fs::read_to_string(&path) {
                    let mut l: Vec<&str> = x.split('\n').collect();
                    let n = l.len() as u32;
                    if n > 1 {
                        l.swap((*a % n) as usize, (*bb % n) as usize);
                        let _ = std::fs::write(&path, l.join("\n"));
                        damaged = true;
                        stored = None;
                        st.hit("fault.swapped-lines");
                    }
                }
            }
            FileOp::Load => {
                let got = quiet(|| ConfigMerkleTree::new_from_file(&path).map_err(|e| e.to_string()));
                st.hit("io.restart-load");
                match (stored, got) {
                    (Some(true), Some(Ok(t))) => {
                        note("load ok");
                        if let Some(d) = same(&t) {
                            return Err(bad("reload", format!("after reload {d}")));
                        }
                        if t.merkle_root != tree.merkle_root {
                            return Err(bad("reload", "root changed by a write and a reload".into()));
                        }
                        for n in &tree.tree_nodes {
                            if !t.tree_nodes.contains(n) {
                                return Err(bad("reload", "an entry or its proof changed by a write and a reload".into()));
                            }
                        }
                        if !matches!(quiet(|| t.verify_proof().is_ok()), Some(true)) {
                            return Err(bad("reload", "verification fails after a reload".into()));
                        }
                        loaded.push(t);
                    }
                    (Some(true), g) => {
                        return Err(bad("reload", format!("an intact file cannot be loaded: {:?}", g.map(|x| x.map(|_| ())))));
                    }
                    (_, Some(Ok(t))) if damaged => {
                        st.hit("io.damaged-accepted");
                        let ver = quiet(|| t.verify_proof().is_ok());
                        note(&format!("load damaged, verify {ver:?}"));
                        if nodes_of(&t) != expect || t.merkle_root != tree.merkle_root {
                            st.hit("io.damage-changed-entries");
                            // entries without their root, or a root without its entries
                            let other = nodes_of(&t) != expect && t.merkle_root != tree.merkle_root;
                            if ver == Some(true) && !other {
                                let what = if t.merkle_root == tree.merkle_root { "list" } else { "root" };
                                return Err(bad("damage", format!("a file with a damaged {what} passes verification")));
                            }
                        }
                        // whatever it says now, the program must admit listed entries only
                        for n in &t.tree_nodes {
                            if let Some(p) = &n.proof {
                                if want.get(&n.escrow_owner) != Some(&(n.registry_index, n.deposit_cap)) {
                                    wrong.push((n.escrow_owner, n.registry_index, n.deposit_cap, p.clone()));
                                }
                            }
                        }
                    }
                    (_, g) => note(&format!("load refused {:?}", g.map(|x| x.is_ok()))),
                }
            }
        }
    }

    // the program judges the proofs
    let mut e = Engine::new(&w, t(&[25]));
    e.verbose = verbose;
    let now = e.now();
    let c = InitCfg {
        max: MAXC,
        min: 10,
        start: now,
        end: now + 3600,
        wl: 1,
        mode: 2,
        unsold: 0,
        dee: 0,
        imm_bps: 0,
        lock: 0,
        vest: 0,
        imm_ts: 0,
        regs: (0..s.nreg).map(|_| RegCfg { min: 1, max: MAXC, supply: 1000, bps: 0 }).collect(),
    };
    let ix = build::init(&e, 0, c, 1, PAYER);
    let tx = |i: IxSpec| Step::Tx { ixs: vec![i], fail: None };
    e.step(&tx(ix));
    if !e.last_ok {
        note("no presale");
        return Ok(());
    }
    e.step(&tx(build::mr_create(0, 1, tree.merkle_root, s.version)));
    if !e.last_ok {
        note("no root");
        return Ok(());
    }
    let src = loaded.last().unwrap_or(&tree);
    let name: BTreeMap<Pubkey, u8> = s.entries.iter().map(|(o, _, _)| (key(*o), *o)).collect();
    let valid = |g: u8, c: u64| g < s.nreg && (1..=MAXC).contains(&c);
    // what must be turned away: overridden entries, and the probes, with any proof of the tree
    let mut no: Vec<(u8, u8, u64, usize)> = vec![];
    for (i, (o, g, c)) in s.entries.iter().enumerate() {
        if want[&key(*o)] != (*g, *c) {
            no.push((*o, *g, *c, i));
        }
    }
    for (o, g, c, pi) in &s.probes {
        if want.get(&key(*o)) != Some(&(*g, *c)) {
            no.push((*o, *g, *c, *pi as usize));
        }
    }
    for (o, g, c, i) in no.iter().take(24) {
        let own = src.tree_nodes.iter().find(|n| n.escrow_owner == key(*o)).and_then(|n| n.proof.clone());
        let any = src.tree_nodes[*i % src.tree_nodes.len()].proof.clone();
        let mut tries: Vec<Vec<[u8; 32]>> = vec![vec![]];
        tries.extend(own);
        tries.extend(any);
        for p in tries {
            e.step(&tx(build::esc_mr(0, *o, s.version, PAYER, *g, *c, &p)));
            st.hit("probe.not-listed");
            if e.last_ok {
                return Err(bad("admitted", format!("owner {o} was admitted to registry {g} with cap {c}, which is not on the list")));
            }
        }
    }
    for (o, g, c, p) in wrong.iter().take(8) {
        // an owner garbled by the damage is nobody's key; try the entry for a listed owner
        let o = name.get(o).copied().unwrap_or(s.entries.first().map(|x| x.0).unwrap_or(4));
        if want.get(&key(o)) == Some(&(*g, *c)) {
            continue;
        }
        e.step(&tx(build::esc_mr(0, o, s.version, PAYER, *g, *c, p)));
        st.hit("probe.damaged-entry");
        if e.last_ok {
            return Err(bad("admitted", format!("owner {o} was admitted to registry {g} with cap {c} by an entry of a damaged file")));
        }
    }
    // a root which differs from the list's in one bit belongs to another list
    let mut near = tree.merkle_root;
    let bit = (s.salt >> 7) as usize % 256;
    near[bit / 8] ^= 1 << (bit % 8);
    let other = s.version.wrapping_add(1);
    e.step(&tx(build::mr_create(0, 1, near, other)));
    if e.last_ok {
        for n in src.tree_nodes.iter().filter(|n| name.contains_key(&n.escrow_owner) && valid(n.registry_index, n.deposit_cap)).take(2) {
            let Some(p) = &n.proof else { continue };
            let Some(o) = name.get(&n.escrow_owner).copied() else { continue };
            e.step(&tx(build::esc_mr(0, o, other, PAYER, n.registry_index, n.deposit_cap, p)));
            st.hit("probe.near-root");
            if e.last_ok {
                return Err(bad("admitted", format!("owner {o} was admitted under a root that is not the list's (bit {bit} differs)")));
            }
        }
    }
    for n in &src.tree_nodes {
        let Some(o) = name.get(&n.escrow_owner).copied() else { continue };
        if !valid(n.registry_index, n.deposit_cap) {
            continue;
        }
        let Some(p) = &n.proof else { return Err(bad("no-proof", format!("listed owner {o} has no proof"))) };
        e.step(&tx(build::esc_mr(0, o, s.version, PAYER, n.registry_index, n.deposit_cap, p)));
        st.hit("probe.listed");
        if !e.last_ok {
            return Err(bad("turned-away", format!("listed owner {o} (of {}) is turned away with the tool's proof: {}", want.len(), e.last_err)));
        }
    }
    note(&format!("chain {}", e.log));
    st.tx += e.stats.tx;
    st.accepted += e.stats.accepted;
    st.rejected += e.stats.rejected;
    Ok(())
}

pub fn shrink(s: &TreeSpec, class: &str, budget: std::time::Duration) -> TreeSpec {
    let t0 = std::time::Instant::now();
    let mut best = s.clone();
    let same = |x: &TreeSpec| judge(x, false).0.map(|v| v.class == class).unwrap_or(false);
    let mut again = true;
    while again && t0.elapsed() < budget {
        again = false;
        macro_rules! drop_each {
            ($f:ident) => {
                let mut n = (best.$f.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.$f.len() && t0.elapsed() < budget {
                        let mut c = best.clone();
                        let hi = (i + n).min(c.$f.len());
                        c.$f.drain(i..hi);
                        if same(&c) {
                            best = c;
                            again = true;
                        } else {
                            i += n;
                        }
                    }
                    if n == 1 {
                        break;
                    }
                    n /= 2;
                }
            };
        }
        drop_each!(entries);
        drop_each!(ops);
        drop_each!(probes);
        if best.filler > 0 {
            for f in [0, best.filler / 2, best.filler - 1] {
                let mut c = best.clone();
                c.filler = f;
                if same(&c) {
                    best = c;
                    again = true;
                    break;
                }
            }
        }
    }
    best
}
