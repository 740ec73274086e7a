//! Executes steps against the real program, compares every outcome with the reference model and checks the
//! invariants and history properties after every step.
use crate::abi::*;
use crate::bank::*;
use crate::build;
use crate::model::*;
use crate::programs::evil_program;
use crate::rng::Rng;
use crate::world::*;
use serde::{Deserialize, Serialize};
use solana_program::{hash::hashv, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    /// a delivered transaction; `fail` makes its n-th cross-program call fail
    Tx { ixs: Vec<IxSpec>, fail: Option<u32> },
    /// the clock advances
    Time(u64),
    /// epoch boundary
    Epoch(u64),
    /// freeze / thaw a token account
    Freeze { at: K, m: u8, on: bool },
    /// the transfer hook of mint m starts / stops failing
    HookFail { m: u8, on: bool },
    /// the owner turns required memos on / off
    Memo { w: u8, m: u8, second: bool, on: bool },
    /// transfer-fee change (takes effect two epochs later)
    SetFee { m: u8, bps: u16, max: u64 },
    /// an outsider sends tokens
    Donate { from: u8, m: u8, to: K, amount: u64 },
    /// an outsider sends lamports
    Lamports { from: u8, to: K, amount: u64 },
    /// an attacker makes a look-alike of an account (owned by another program), optionally with bytes replaced
    Forge { at: u8, of: K, patch: Vec<(u16, K)> },
    /// fork point / switch back to it (minority fork abandoned)
    Snapshot,
    Rollback,
    /// the list behind a published whitelist root becomes known to the checker
    Root { root: String, leaves: Vec<String> },
    /// faults stop; everybody exits in an order given by the number
    Drain { order: u64, late: u64 },
    /// what-if on two copies of the state: everybody exits in two different orders; the outcomes must agree
    DrainPair { a: u64, b: u64, late: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub tags: Tags,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Default, Debug)]
pub struct RegSum {
    pub dep: u64,
    pub fee: u64,
    pub claimed: u64,
    pub refunded: u64,
}

#[derive(Clone, Debug)]
pub struct PHist {
    /// configuration as requested at creation
    pub cfg: PState,
    pub outcome: Option<(u8, u64, u64)>,
    pub closed: Vec<RegSum>,
    pub ever: u64,
    pub donated_q: u64,
    pub donated_b: u64,
    pub creator_q: u64,
    pub creator_b: u64,
    pub fees: u64,
    pub unsold: u64,
    pub open_deposits: bool,
}

#[derive(Clone, Default, Debug)]
pub struct EHist {
    pub paid: u64,
    pub withdrawn: u64,
    pub refunded: u64,
    pub claimed: u64,
    pub max_cum: u64,
}

#[derive(Clone, Default)]
pub struct Hist {
    pub ps: BTreeMap<Pubkey, PHist>,
    pub es: BTreeMap<Pubkey, EHist>,
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub tx: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub unspec: u64,
    pub sim_seconds: u64,
    pub counts: BTreeMap<String, u64>,
    /// hashes of distinct abstract states reached
    #[serde(skip)]
    pub states: std::collections::BTreeSet<u64>,
}
pub fn outcome_diff(a: &BTreeMap<String, u64>, b: &BTreeMap<String, u64>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return Some(format!("{k}: {:?} vs {:?}", a.get(k), b.get(k)));
        }
    }
    None
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.tx += o.tx;
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.unspec += o.unspec;
        self.sim_seconds += o.sim_seconds;
        for (k, v) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += v;
        }
        self.states.extend(o.states.iter());
    }
    pub fn hit(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
}

#[derive(Clone)]
struct Snap {
    bank: Bank,
    hist: Hist,
    prog: BTreeMap<Pubkey, Prg>,
}

pub struct Engine<'w> {
    pub w: &'w World,
    pub bank: Bank,
    pub hist: Hist,
    pub prog: BTreeMap<Pubkey, Prg>,
    pub roots: BTreeMap<[u8; 32], Vec<[u8; 32]>>,
    pub target: Tags,
    pub stats: Stats,
    snap: Option<Box<Snap>>,
    pub foreign: Vec<Viol>,
    pub log: u64,
    pub verbose: bool,
    /// did the last step's transaction commit
    pub last_ok: bool,
    pub last_err: String,
    pub outcome: BTreeMap<String, u64>,
}

fn wrong_reject_tags(e: &Effect) -> Tags {
    let mut m = match e.kind {
        "Init" => t(&[20]),
        "Esc" => t(&[18, 21]),
        "EscOp" => t(&[16, 18, 21, 5]),
        "EscMr" => t(&[15, 18, 21, 5]),
        "Dep" => t(&[21, 5, 6]),
        "Wd" => t(&[17, 21]),
        "Claim" => t(&[3, 4, 21]),
        "Refund" => {
            if e.prog == FAILED {
                t(&[9, 21])
            } else {
                t(&[10, 21])
            }
        }
        "CrWd" => {
            if e.prog == FAILED {
                t(&[9, 11, 21])
            } else {
                t(&[11, 21])
            }
        }
        "Fee" => t(&[11, 21]) | if e.mode == 1 { t(&[10]) } else { 0 },
        "Unsold" => t(&[12, 21]),
        "Close" => t(&[18, 21, 26]),
        "Refresh" => t(&[3, 21, 24]),
        "MrCreate" | "MrClose" => t(&[15]),
        "OpCreate" | "OpRevoke" => t(&[16]),
        "Args" | "CloseArgs" => t(&[20]),
        _ => t(&[13]),
    };
    if e.feemint || e.hookmint || e.memo {
        m |= t(&[22]);
    }
    if is_record(e.kind) {
        m |= t(&[26]);
    }
    m
}

fn presale_field_tags(op: &str, f: &str, prog: u8) -> Tags {
    let init = op == "Init";
    match f {
        "dep" | "regs.dep" => t(&[19]) | match op {
            "Dep" => t(&[6]),
            "Wd" => t(&[17]),
            _ => t(&[7, 14, 4, 10]),
        },
        "fee" | "regs.fee" => t(&[19]) | match op {
            "Dep" => t(&[6]),
            "Wd" => t(&[17]),
            _ => t(&[11]),
        },
        "escrows" | "regs.escrows" => t(&[19, 18]),
        "claimed" | "regs.claimed" => t(&[19, 3]),
        "refunded" | "regs.refunded" => t(&[19]) | if prog == FAILED { t(&[9]) } else { t(&[10]) },
        "fee_collected" => t(&[11, 1]),
        "creator_withdrawn" => t(&[11]) | if prog == FAILED { t(&[9, 2]) } else { t(&[1]) },
        "unsold_done" => t(&[12, 2]),
        "end" | "imm_ts" | "vest_start" | "vest_end" => {
            if init {
                t(&[20, 3])
            } else if op == "Dep" {
                t(&[8]) | if f == "end" { t(&[7]) } else { t(&[3]) }
            } else {
                t(&[7, 8, 20])
            }
        }
        "start" => t(&[20, 7]),
        "lock" | "vest" | "imm_bps" => t(&[20, 3]),
        "regs.min" | "regs.max" => t(&[20, 5]),
        "max" => t(&[20, 5, 8, 10, 11]),
        "min" => t(&[20, 7, 9]),
        "supply" | "regs.supply" => t(&[20, 2, 4]),
        "regs.bps" => t(&[20, 6]),
        "q" => t(&[20, 4, 6]),
        "dw" => t(&[20, 17]),
        "dee" => t(&[20, 8]),
        "unsold_action" => t(&[20, 12]),
        "wl" => t(&[20, 15, 16]),
        "bflag" | "qflag" => t(&[20, 22]),
        "mode" | "nreg" | "created" => t(&[20]),
        "owner" => t(&[20, 13, 9, 11]),
        "qvault" | "quote_mint" => t(&[20, 14, 1]),
        "bvault" | "base_mint" => t(&[20, 14, 2]),
        _ => t(&[20, 14]),
    }
}

fn escrow_field_tags(op: &str, f: &str, prog: u8) -> Tags {
    match f {
        "dep" => match op {
            "Dep" => t(&[6, 19]),
            "Wd" => t(&[17, 19]),
            _ => t(&[19, 18, 7]),
        },
        "fee" => match op {
            "Dep" => t(&[6, 19]),
            "Wd" => t(&[17, 19]),
            _ => t(&[19, 9]),
        },
        "claimed" => t(&[3, 19, 4, 2]),
        "pending" | "refreshed" => t(&[3]) | if op == "Refresh" { t(&[24]) } else { 0 },
        "refunded" => {
            if prog == FAILED {
                t(&[9, 1])
            } else {
                t(&[10, 1])
            }
        }
        "cap" => t(&[18, 5, 15, 16]),
        "reg" => t(&[18, 15, 16]),
        "owner" | "presale" => t(&[18, 13, 14]),
        _ => t(&[18]),
    }
}

macro_rules! diff {
    ($out:ident, $a:expr, $b:expr, $pre:expr, [$($f:ident),*]) => {
        $( if $a.$f != $b.$f { $out.push((format!("{}{}", $pre, stringify!($f)), format!("{:?}", $a.$f), format!("{:?}", $b.$f))); } )*
    };
}

pub fn diff_presale(a: &PState, b: &PState) -> Vec<(String, String, String)> {
    let mut o = vec![];
    diff!(o, a, b, "", [
        owner, quote_mint, base_mint, bvault, qvault, base, mode, wl, max, min, start, end, supply, dep, escrows,
        created, lock, vest, imm_ts, vest_start, vest_end, claimed, refunded, fee, fee_collected, creator_withdrawn,
        bflag, qflag, nreg, unsold_action, unsold_done, imm_bps, q, dw, dee
    ]);
    for (x, y) in a.regs.iter().zip(&b.regs) {
        diff!(o, x, y, "regs.", [supply, dep, escrows, claimed, refunded, min, max, fee, bps]);
    }
    o
}
pub fn diff_escrow(a: &EState, b: &EState) -> Vec<(String, String, String)> {
    let mut o = vec![];
    diff!(o, a, b, "", [presale, owner, dep, claimed, refunded, reg, pending, cap, created, fee, refreshed]);
    o
}

impl<'w> Engine<'w> {
    pub fn new(w: &'w World, target: Tags) -> Self {
        Engine {
            w,
            bank: w.setup(),
            hist: Hist::default(),
            prog: BTreeMap::new(),
            roots: BTreeMap::new(),
            target,
            stats: Stats::default(),
            snap: None,
            foreign: vec![],
            log: 0,
            verbose: false,
            last_ok: true,
            last_err: String::new(),
            outcome: BTreeMap::new(),
        }
    }

    pub fn now(&self) -> u64 {
        self.bank.ts as u64
    }
    pub fn presale(&self, k: &Pubkey) -> Option<&PState> {
        match self.prog.get(k) {
            Some(Prg::Presale(p)) => Some(p),
            _ => None,
        }
    }
    pub fn escrow(&self, k: &Pubkey) -> Option<&EState> {
        match self.prog.get(k) {
            Some(Prg::Escrow(p)) => Some(p),
            _ => None,
        }
    }
    pub fn p(&self, i: u8) -> Option<&PState> {
        self.presale(&self.w.key(K::P(i)))
    }
    pub fn tok_amount(&self, k: &Pubkey) -> u64 {
        self.bank.get(k).and_then(tok_view).map(|x| x.amount).unwrap_or(0)
    }
    pub fn escrows_of(&self, pk: &Pubkey) -> Vec<(Pubkey, EState)> {
        self.prog
            .iter()
            .filter_map(|(k, v)| match v {
                Prg::Escrow(e) if e.presale == *pk => Some((*k, e.clone())),
                _ => None,
            })
            .collect()
    }

    fn note(&mut self, s: &str) {
        let h = hashv(&[&self.log.to_le_bytes(), s.as_bytes()]).to_bytes();
        self.log = u64::from_le_bytes(h[..8].try_into().unwrap());
        if self.verbose {
            eprintln!("[t={}] {}", self.bank.ts, s);
        }
    }

    /// Runs one step. Returns a violation of the target property, if any.
    pub fn step(&mut self, s: &Step) -> Option<Viol> {
        self.last_ok = true;
        let v = match s {
            Step::Tx { ixs, fail } => self.tx(ixs, *fail),
            Step::Time(d) => {
                self.bank.ts += *d as i64;
                self.bank.slot += (*d).max(1) * 2;
                self.stats.sim_seconds += *d;
                self.stats.hit("clock.advance");
                self.note(&format!("time +{d}"));
                self.after(&[])
            }
            Step::Epoch(n) => {
                self.bank.epoch += *n;
                self.stats.hit("fault.epoch-change");
                self.note(&format!("epoch +{n}"));
                vec![]
            }
            Step::Freeze { at, m, on } => {
                let (k, mk, a) = (self.w.key(*at), self.w.key(K::M(*m)), self.w.authority());
                let tp = self.w.tp_of(*m);
                let i = if *on {
                    spl_token_2022::instruction::freeze_account(&tp, &k, &mk, &a, &[])
                } else {
                    spl_token_2022::instruction::thaw_account(&tp, &k, &mk, &a, &[])
                };
                let r = self.bank.exec(&[to_ix(i.unwrap())], None);
                if r.ok && *on {
                    self.stats.hit("fault.freeze");
                }
                self.note(&format!("freeze {at:?} {on} {}", r.ok));
                vec![]
            }
            Step::HookFail { m, on } => {
                let k = self.w.key(K::HookC(*m));
                if let Some(a) = self.bank.get(&k) {
                    let mut a = a.clone();
                    a.data[8] = *on as u8;
                    self.bank.put(k, a);
                    if *on {
                        self.stats.hit("fault.hook-failing");
                    }
                }
                self.note(&format!("hookfail {m} {on}"));
                vec![]
            }
            Step::Memo { w, m, second, on } => {
                use spl_token_2022::extension::memo_transfer::instruction as mi;
                let tp = self.w.tp_of(*m);
                let k = self.w.key(if *second { K::Tok2(*w, *m) } else { K::Tok(*w, *m) });
                let o = self.w.key(K::W(*w));
                if tp == spl_token_2022::ID {
                    let i = if *on {
                        mi::enable_required_transfer_memos(&tp, &k, &o, &[])
                    } else {
                        mi::disable_required_transfer_memos(&tp, &k, &o, &[])
                    };
                    let r = self.bank.exec(&[to_ix(i.unwrap())], None);
                    if r.ok && *on {
                        self.stats.hit("env.memo-required");
                    }
                }
                self.note("memo");
                vec![]
            }
            Step::SetFee { m, bps, max } => {
                use spl_token_2022::extension::transfer_fee::instruction as fi;
                let (mk, a) = (self.w.key(K::M(*m)), self.w.authority());
                if self.w.cfg.mints[*m as usize].fee() {
                    let i = fi::set_transfer_fee(&self.w.tp_of(*m), &mk, &a, &[], *bps, *max).unwrap();
                    let r = self.bank.exec(&[to_ix(i)], None);
                    if r.ok {
                        self.stats.hit("env.transfer-fee-change");
                    }
                }
                self.note("setfee");
                vec![]
            }
            Step::Donate { from, m, to, amount } => self.donate(*from, *m, *to, *amount),
            Step::Lamports { from, to, amount } => {
                let (f, tk) = (self.w.key(K::W(*from)), self.w.key(*to));
                let i = solana_program::system_instruction::transfer(&f, &tk, *amount);
                let r = self.bank.exec(&[to_ix(i)], None);
                if r.ok {
                    self.stats.hit("adversary.lamport-donation");
                }
                self.note(&format!("lamports {to:?} {amount} {}", r.ok));
                vec![]
            }
            Step::Forge { at, of, patch } => {
                if let Some(a) = self.bank.get(&self.w.key(*of)) {
                    let mut a = a.clone();
                    a.owner = evil_program();
                    a.executable = false;
                    a.lamports = a.lamports.max(rent_min(a.data.len()));
                    for (off, k) in patch {
                        let o = *off as usize;
                        let kk = self.w.key(*k);
                        if a.data.len() >= o + 32 {
                            a.data[o..o + 32].copy_from_slice(kk.as_ref());
                        }
                    }
                    self.bank.put(self.w.key(K::Fake(*at)), a);
                    self.stats.hit("adversary.look-alike-account");
                }
                self.note(&format!("forge {at} of {of:?}"));
                vec![]
            }
            Step::Snapshot => {
                self.snap = Some(Box::new(Snap {
                    bank: self.bank.clone(),
                    hist: self.hist.clone(),
                    prog: self.prog.clone(),
                }));
                self.note("snapshot");
                vec![]
            }
            Step::Rollback => {
                if let Some(s) = self.snap.take() {
                    self.bank = s.bank;
                    self.hist = s.hist;
                    self.prog = s.prog;
                    self.stats.hit("fault.fork-rollback");
                }
                self.note("rollback");
                vec![]
            }
            Step::Root { root, leaves } => {
                self.roots.insert(unhex(root), leaves.iter().map(|x| unhex(x)).collect());
                vec![]
            }
            Step::Drain { order, late } => self.drain(*order, *late),
            Step::DrainPair { a, b, late } => self.drain_pair(*a, *b, *late),
        };
        for x in v {
            self.note(&format!("VIOL {} {:?} {}", x.class, tag_list(x.tags), x.msg));
            if x.tags & self.target != 0 {
                return Some(x);
            }
            self.foreign.push(x);
        }
        None
    }

    fn donate(&mut self, from: u8, m: u8, to: K, amount: u64) -> Vec<Viol> {
        let tp = self.w.tp_of(m);
        let (src, mk, dst, o) = (self.w.key(K::Tok(from, m)), self.w.key(K::M(m)), self.w.key(to), self.w.key(K::W(from)));
        let Some(mv) = self.bank.get(&mk).and_then(mint_view) else { return vec![] };
        let mut i =
            spl_token_2022::instruction::transfer_checked(&tp, &src, &mk, &dst, &o, &[], amount, mv.decimals).unwrap();
        if mv.hook.is_some() {
            use solana_program::instruction::AccountMeta as A;
            i.accounts.push(A::new_readonly(self.w.key(K::HookV(m)), false));
            i.accounts.push(A::new_readonly(self.w.key(K::HookP), false));
            i.accounts.push(A::new(self.w.key(K::HookC(m)), false));
        }
        let pre = self.tok_amount(&dst);
        let r = self.bank.exec(&[to_ix(i)], None);
        if r.ok {
            self.stats.hit("adversary.token-donation");
            let d = self.tok_amount(&dst) - pre;
            for p in 0..self.w.cfg.presales.len() as u8 {
                if let Some(h) = self.hist.ps.get_mut(&self.w.key(K::P(p))) {
                    if dst == self.w.key(K::QV(p)) {
                        h.donated_q += d;
                    }
                    if dst == self.w.key(K::BV(p)) {
                        h.donated_b += d;
                    }
                }
            }
        }
        self.note(&format!("donate {to:?} {amount} {}", r.ok));
        vec![]
    }

    // ------------------------------------------------------------ transactions

    fn tx(&mut self, ixs: &[IxSpec], fail: Option<u32>) -> Vec<Viol> {
        let mut out: Vec<Viol> = vec![];
        let pred = predict(self.w, &self.bank, &self.roots, ixs);
        let built: Vec<Ix> = ixs.iter().map(|s| s.build(self.w)).collect();
        let before = self.bank.clone();
        let r = self.bank.exec(&built, fail);
        self.last_ok = r.ok;
        self.last_err = r.err.clone();
        self.stats.tx += 1;
        let kinds: Vec<&str> = ixs.iter().map(|i| i.op.kind()).collect();
        let ks = kinds.join("+");
        if r.ok {
            self.stats.accepted += 1;
        } else {
            self.stats.rejected += 1;
        }
        self.stats.hit(&format!("op.{}.{}", ks, if r.ok { "ok" } else { "no" }));
        if r.injected {
            self.stats.hit("fault.cpi-failure");
        }
        self.note(&format!("tx {ks} ok={} {} {:?}", r.ok, if r.ok { "" } else { &r.err }, r.changed.keys().map(|k| self.w.label(k)).collect::<Vec<_>>()));
        if self.verbose {
            eprintln!("     {ixs:?}");
            if !pred.conds.is_empty() {
                eprintln!("     expected reject: {:?}", pred.conds.iter().map(|c| &c.what).collect::<Vec<_>>());
            }
        }
        let last = pred.effects.last().cloned().unwrap_or_default();
        let lk = last.kind;
        if r.injected {
            if r.ok {
                out.push(Viol {
                    tags: t(&[19, 22]),
                    class: format!("swallowed-failure:{ks}"),
                    msg: format!("{ks} committed although a cross-program call failed"),
                });
            }
            return out;
        }
        let mut mismatch = false;
        if pred.unspec {
            // outside what the properties specify: the transaction is treated as never delivered
            self.stats.unspec += 1;
            self.bank = before;
            self.last_ok = false;
            self.last_err = "unspecified".into();
            return out;
        } else if !pred.conds.is_empty() {
            for c in &pred.conds {
                self.stats.hit(&format!("cond.{}.{}", lk, c.what));
            }
            if r.ok {
                let tags = pred.conds.iter().fold(0, |m, c| m | c.tags);
                let why = pred.conds.iter().map(|c| c.what.as_str()).collect::<Vec<_>>().join("; ");
                mismatch = true;
                out.push(Viol {
                    tags,
                    class: format!("accept:{lk}:{}", pred.conds[0].what),
                    msg: format!("{ks} was accepted but must be rejected: {why}"),
                });
            }
        } else if !r.ok {
            mismatch = true;
            // which instruction failed
            let idx = r.err.strip_prefix("ix").and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok());
            let ef = idx.and_then(|i| pred.effects.get(i)).cloned().unwrap_or(last.clone());
            let mut tags = wrong_reject_tags(&ef);
            // an outsider's lamports on the address to be created must not matter
            let own: Vec<Pubkey> = ixs.iter().flat_map(|s| s.acc.iter().map(|(k, _)| self.w.key(*k))).collect();
            if pred.created.iter().any(|(k, _)| own.contains(k) && before.get(k).map(|a| a.lamports > 0).unwrap_or(false)) {
                tags |= t(&[24]);
            }
            // the vault cannot pay what is owed
            if r.err.contains("cpi token: Custom(1)") {
                tags |= match ef.kind {
                    "Claim" | "Unsold" => t(&[2]),
                    "CrWd" if ef.prog == FAILED => t(&[2]),
                    "Refund" | "CrWd" | "Fee" | "Wd" => t(&[1]),
                    _ => 0,
                };
            }
            let probe = self.time_probe(&before, &built, &ef);
            if probe {
                tags |= t(&[7]);
            }
            out.push(Viol {
                tags,
                class: format!("reject:{}", ef.kind),
                msg: format!(
                    "{ks} ({}) was rejected but must be accepted: {}{}",
                    ef.kind,
                    r.err,
                    if probe { " (accepted at another time of the same phase)" } else { "" }
                ),
            });
        } else {
            let mut v = self.compare(&before, &r, &pred, &ks);
            for x in &mut v {
                if is_record(last.kind) || x.class.ends_with(":lamports") {
                    x.tags |= t(&[26]);
                }
            }
            mismatch = !v.is_empty();
            out.extend(v);
            out.extend(self.events(&r, &pred, &ks));
        }
        if !r.ok {
            if !r.events.is_empty() {
                out.push(Viol { tags: t(&[23]), class: format!("event-on-reject:{ks}"), msg: "rejected transaction emitted events".into() });
            }
            return out;
        }
        // bring the decoded view up to date
        let mut closed = vec![];
        for (k, (_, post)) in &r.changed {
            let was = self.prog.get(k).cloned();
            let is = post.as_ref().filter(|a| a.owner == PROGRAM).and_then(|a| decode(&a.data));
            match is {
                Some(x) => {
                    self.prog.insert(*k, x);
                }
                None => {
                    self.prog.remove(k);
                    if let Some(Prg::Escrow(e)) = was {
                        let at = pred.effects.iter().rev().find(|f| f.escrow == Some(*k)).and_then(|f| f.closing.clone());
                        closed.push((*k, at.filter(|_| !mismatch).unwrap_or(e)));
                    }
                }
            }
        }
        out.extend(self.flows(&r, &pred, mismatch, &closed));
        let touched: Vec<Pubkey> = r.changed.keys().copied().collect();
        out.extend(self.after(&touched));
        out
    }

    /// Does the same transaction succeed at another time of the same phase? Then the rejection is about time.
    fn time_probe(&self, before: &Bank, built: &[Ix], e: &Effect) -> bool {
        let Some(pk) = e.presale else { return false };
        let Some(p) = self.presale(&pk) else { return false };
        let now = before.ts as u64;
        let ph = progress(p, now);
        for d in [1i64, 2, 5, -1, -2, 30] {
            let ts = before.ts + d;
            if ts < 0 || progress(p, ts as u64) != ph {
                continue;
            }
            let mut b = before.clone();
            b.ts = ts;
            if b.exec(built, None).ok {
                return true;
            }
        }
        false
    }

    fn compare(&self, before: &Bank, r: &TxResult, pred: &Prediction, ks: &str) -> Vec<Viol> {
        let mut out = vec![];
        let last = pred.effects.last().cloned().unwrap_or_default();
        let op = last.kind;
        let prog = last.prog;
        let extra = |f: &str| {
            if op == "Dep" && last.capped && matches!(f, "dep" | "regs.dep") {
                t(&[5])
            } else {
                0
            }
        };
        // lamports: created accounts are topped up to the rent minimum by their payer
        let mut lam: BTreeMap<Pubkey, i128> = pred.ov.iter().map(|(k, e)| (*k, e.lam)).collect();
        for (k, payer) in &pred.created {
            let pre = before.get(k).map(|a| a.lamports).unwrap_or(0);
            let len = self.bank.get(k).map(|a| a.data.len()).unwrap_or(0);
            let add = rent_min(len).saturating_sub(pre) as i128;
            *lam.entry(*k).or_insert(0) += add;
            *lam.entry(*payer).or_insert(0) -= add;
        }
        for (k, e) in &pred.ov {
            let pre = before.get(k);
            let post = self.bank.get(k);
            let name = self.w.label(k);
            let mut bad = |tags: Tags, what: String, msg: String| {
                out.push(Viol { tags, class: format!("state:{op}:{what}"), msg: format!("{ks}: {msg} ({name})") })
            };
            match &e.body {
                Body::Closed => {
                    if let Some(a) = post {
                        if a.owner == PROGRAM || !a.data.is_empty() {
                            let tg = match op {
                                "Close" => t(&[18]),
                                "OpRevoke" => t(&[16, 13]),
                                "MrClose" => t(&[15]),
                                _ => t(&[13]),
                            };
                            bad(tg, "not-closed".into(), "account still exists".into());
                        }
                    }
                }
                Body::Prg(x) => {
                    let got = post.filter(|a| a.owner == PROGRAM).and_then(|a| decode(&a.data));
                    match (x, got) {
                        (Prg::Presale(a), Some(Prg::Presale(b))) => {
                            for (f, ex, gt) in diff_presale(a, &b) {
                                bad(presale_field_tags(op, &f, prog) | extra(&f), format!("presale.{f}"), format!("presale {f} expected {ex} got {gt}"));
                            }
                        }
                        (Prg::Escrow(a), Some(Prg::Escrow(b))) => {
                            for (f, ex, gt) in diff_escrow(a, &b) {
                                bad(escrow_field_tags(op, &f, prog) | extra(&f), format!("escrow.{f}"), format!("escrow {f} expected {ex} got {gt}"));
                            }
                        }
                        (a, Some(b)) => {
                            if *a != b {
                                let tg = match a {
                                    Prg::Mr(_) => t(&[15]),
                                    Prg::Op(_) => t(&[16, 13]),
                                    Prg::Args(_) => t(&[20, 13, 14]),
                                    _ => t(&[13, 14]),
                                } | t(&[23]);
                                bad(tg, "record".into(), format!("expected {a:?} got {b:?}"));
                            }
                        }
                        (_, None) => bad(t(&[14, 18, 20]), "missing".into(), "account missing or unreadable".into()),
                    }
                }
                Body::Tok(x) => {
                    let got = post.and_then(tok_view);
                    match got {
                        None => bad(e.tags, "token-missing".into(), "token account missing".into()),
                        Some(g) => {
                            if g.amount != x.amount || g.withheld != x.withheld {
                                let pay = if matches!(op, "Claim" | "Refund" | "Wd" | "CrWd" | "Fee" | "Unsold") { t(&[21]) } else { 0 };
                                bad(
                                    e.tags | pay,
                                    "token-amount".into(),
                                    format!("token amount expected {} (withheld {}) got {} ({})", x.amount, x.withheld, g.amount, g.withheld),
                                );
                            } else if g != *x {
                                bad(e.tags | t(&[14]), "token-state".into(), format!("token account expected {x:?} got {g:?}"));
                            }
                        }
                    }
                }
                Body::Mint(s) => {
                    let g = post.and_then(mint_view).map(|m| m.supply);
                    if g != Some(*s) {
                        bad(e.tags, "mint-supply".into(), format!("mint supply expected {s} got {g:?}"));
                    }
                }
                Body::Hook(n) => {
                    let g = post.map(|a| u64::from_le_bytes(a.data[..8].try_into().unwrap()));
                    if g != Some(*n) {
                        bad(t(&[22]), "hook-count".into(), format!("hook executions expected {n} got {g:?}"));
                    }
                }
                Body::Same => {
                    if let (Some(a), Some(b)) = (pre, post) {
                        if a.data != b.data || a.owner != b.owner {
                            bad(t(&[14]), "frame".into(), "account changed".into());
                        }
                    }
                }
            }
        }
        for (k, (pre, post)) in &r.changed {
            let l0 = pre.as_ref().map(|a| a.lamports).unwrap_or(0) as i128;
            let l1 = post.as_ref().map(|a| a.lamports).unwrap_or(0) as i128;
            let closed = matches!(pred.ov.get(k).map(|e| &e.body), Some(Body::Closed));
            let want = if closed { 0 } else { l0 + lam.get(k).copied().unwrap_or(0) };
            let known = lam.contains_key(k);
            if known && l1 != want {
                let tg = match op {
                    "Close" | "Esc" | "EscOp" | "EscMr" => t(&[18, 14]),
                    "OpRevoke" | "CloseArgs" | "MrClose" | "MetaClose" => t(&[14, 13]),
                    _ => t(&[14]),
                };
                out.push(Viol {
                    tags: tg,
                    class: format!("state:{op}:lamports"),
                    msg: format!("{ks}: lamports of {} expected {want} got {l1}", self.w.label(k)),
                });
            }
            if !known {
                out.push(Viol {
                    tags: self.frame_tags(k, pre.as_deref(), post.as_deref(), op),
                    class: format!("frame:{op}"),
                    msg: format!("{ks}: account {} must not change", self.w.label(k)),
                });
            } else if !pred.ov.contains_key(k) {
                // payer: only lamports may change
                if let (Some(a), Some(b)) = (pre, post) {
                    if a.data != b.data || a.owner != b.owner {
                        out.push(Viol { tags: t(&[14]), class: format!("frame:{op}"), msg: format!("{ks}: payer data changed") });
                    }
                }
            }
        }
        out
    }

    fn frame_tags(&self, k: &Pubkey, pre: Option<&Acct>, post: Option<&Acct>, op: &str) -> Tags {
        let mut m = t(&[14]);
        let a = pre.or(post);
        if let Some(a) = a {
            if a.owner == PROGRAM {
                match decode(&a.data) {
                    Some(Prg::Presale(p)) => {
                        if let Some(Prg::Presale(q)) = post.and_then(|x| decode(&x.data)) {
                            for (f, _, _) in diff_presale(&p, &q) {
                                m |= presale_field_tags(op, &f, 0);
                            }
                        }
                    }
                    Some(Prg::Escrow(e)) => {
                        m |= t(&[18]);
                        if let Some(Prg::Escrow(q)) = post.and_then(|x| decode(&x.data)) {
                            for (f, _, _) in diff_escrow(&e, &q) {
                                m |= escrow_field_tags(op, &f, 0);
                            }
                        }
                    }
                    _ => m |= t(&[13, 26]),
                }
            } else if a.owner == system_program::ID && a.data.is_empty() {
                // somebody's SOL moved
                m |= t(&[13, 26]) | if op == "Close" { t(&[18]) } else { 0 };
            } else if tok_view(a).is_some() {
                match self.w.sym(k) {
                    Some(K::QV(_)) => m |= t(&[1]),
                    Some(K::BV(_)) => m |= t(&[2]),
                    _ => {}
                }
                m |= match op {
                    "Claim" => t(&[3, 2]),
                    "Unsold" => t(&[12, 2]),
                    "CrWd" | "Fee" => t(&[11, 1]),
                    "Refund" => t(&[9, 10]),
                    "Wd" => t(&[17]),
                    "Dep" => t(&[6]),
                    _ => 0,
                };
            } else if mint_view(a).is_some() {
                m |= t(&[12]);
            }
        }
        m
    }

    fn events(&self, r: &TxResult, pred: &Prediction, ks: &str) -> Vec<Viol> {
        let mut out = vec![];
        for (i, want) in pred.events.iter().enumerate() {
            let Some(want) = want else { continue };
            let got: Vec<&Vec<u8>> = r.events.iter().filter(|(j, _)| *j == i).map(|(_, p)| p).collect();
            if got.len() != want.len() {
                out.push(Viol {
                    tags: t(&[23]),
                    class: format!("event:{}:count", pred.effects[i].kind),
                    msg: format!("{ks}: expected {} event(s), got {}", want.len(), got.len()),
                });
                continue;
            }
            for (w, g) in want.iter().zip(got) {
                if let Some(d) = w.differs(g) {
                    let f = d.split(':').next().unwrap_or("").to_string();
                    out.push(Viol { tags: t(&[23]), class: format!("event:{f}"), msg: format!("{ks}: {d}") });
                }
            }
        }
        out
    }

    /// Track what was really paid, per presale and escrow, from vault movements.
    fn flows(
        &mut self,
        r: &TxResult,
        pred: &Prediction,
        mismatch: bool,
        closed: &[(Pubkey, EState)],
    ) -> Vec<Viol> {
        let mut out = vec![];
        let delta = |k: &Pubkey| -> i128 {
            match r.changed.get(k) {
                None => 0,
                Some((a, b)) => {
                    let f = |x: &Option<std::sync::Arc<Acct>>| x.as_ref().and_then(|a| tok_view(a)).map(|v| v.amount).unwrap_or(0) as i128;
                    f(b) - f(a)
                }
            }
        };
        let single = pred.effects.len() == 1;
        let mut explained: BTreeMap<Pubkey, (i128, i128)> = BTreeMap::new();
        let mut created: Vec<Pubkey> = vec![];
        for e in &pred.effects {
            let Some(pk) = e.presale else { continue };
            let Some(p) = self.presale(&pk).cloned() else { continue };
            if e.kind == "Init" {
                created.push(pk);
                let qv = self.tok_amount(&p.qvault);
                let bv = self.tok_amount(&p.bvault);
                let cfg = match pred.ov.get(&pk).map(|x| &x.body) {
                    Some(Body::Prg(Prg::Presale(c))) if pred.conds.is_empty() => (**c).clone(),
                    _ => p.clone(),
                };
                if bv < cfg.supply {
                    out.push(Viol { tags: t(&[2, 20]), class: "hist:init-funding".into(), msg: format!("base vault funded with {bv} of {}", cfg.supply) });
                }
                self.hist.ps.insert(
                    pk,
                    PHist {
                        donated_q: qv,
                        donated_b: bv.saturating_sub(cfg.supply),
                        cfg,
                        outcome: None,
                        closed: vec![RegSum::default(); 5],
                        ever: 0,
                        creator_q: 0,
                        creator_b: 0,
                        fees: 0,
                        unsold: 0,
                        open_deposits: false,
                    },
                );
                continue;
            }
            let (dq, db) = if (single && !e.to_self) || mismatch {
                (delta(&p.qvault), delta(&p.bvault))
            } else {
                // several matching instructions: the model's amounts add up to the observed movement
                match e.kind {
                    "Dep" => {
                        let bps = e.escrow.and_then(|k| self.escrow(&k)).map(|x| p.regs[x.reg as usize].bps).unwrap_or(0);
                        ((e.amount + dep_fee(e.amount, bps).unwrap_or(0)) as i128, 0)
                    }
                    "Wd" | "Refund" | "Fee" => (-(e.amount as i128), 0),
                    "Claim" | "Unsold" => (0, -(e.amount as i128)),
                    "CrWd" => {
                        if e.prog == COMPLETED {
                            (-(e.amount as i128), 0)
                        } else {
                            (0, -(e.amount as i128))
                        }
                    }
                    _ => (0, 0),
                }
            };
            let x = explained.entry(pk).or_insert((0, 0));
            *x = if mismatch { (dq, db) } else { (x.0 + dq, x.1 + db) };
            let Some(h) = self.hist.ps.get_mut(&pk) else { continue };
            match e.kind {
                "CrWd" => {
                    h.creator_q += (-dq).max(0) as u64;
                    h.creator_b += (-db).max(0) as u64;
                    if e.prog == FAILED && h.creator_q > 0 {
                        out.push(Viol { tags: t(&[9, 11, 1]), class: "hist:creator-quote-after-failure".into(), msg: "creator took quote tokens from a failed sale".into() });
                    }
                    if h.creator_q > h.cfg.max {
                        out.push(Viol { tags: t(&[11, 1]), class: "hist:creator-over-cap".into(), msg: format!("creator took {} above cap {}", h.creator_q, h.cfg.max) });
                    }
                    if h.creator_b > h.cfg.supply {
                        out.push(Viol { tags: t(&[9, 2]), class: "hist:creator-over-supply".into(), msg: "creator took more than the supply".into() });
                    }
                }
                "Fee" => h.fees += (-dq).max(0) as u64,
                "Unsold" => h.unsold += (-db).max(0) as u64,
                _ => {}
            }
            if matches!(e.kind, "Esc" | "EscOp" | "EscMr") {
                h.ever += 1;
                if let Some(k) = e.escrow {
                    self.hist.es.insert(k, EHist::default());
                }
            }
            if let Some(ek) = e.escrow {
                let eh = self.hist.es.entry(ek).or_default();
                match e.kind {
                    "Dep" => eh.paid += dq.max(0) as u64,
                    "Wd" => eh.withdrawn += (-dq).max(0) as u64,
                    "Refund" => {
                        eh.refunded += (-dq).max(0) as u64;
                        let owed = eh.paid.saturating_sub(eh.withdrawn);
                        if e.prog == FAILED && eh.refunded != owed {
                            out.push(Viol {
                                tags: t(&[9]) | if eh.refunded > owed { t(&[1]) } else { 0 },
                                class: "hist:failed-refund".into(),
                                msg: format!("failed sale refunded {} of {} paid in", eh.refunded, owed),
                            });
                        }
                        if eh.refunded > owed {
                            out.push(Viol { tags: t(&[1, 10]), class: "hist:over-refund".into(), msg: format!("refunded {} of {} paid in", eh.refunded, owed) });
                        }
                    }
                    "Claim" => {
                        eh.claimed += (-db).max(0) as u64;
                        if e.prog == FAILED && eh.claimed > 0 {
                            out.push(Viol { tags: t(&[9, 2]), class: "hist:claim-after-failure".into(), msg: "base tokens claimed from a failed sale".into() });
                        }
                    }
                    _ => {}
                }
            }
        }
        // whatever else arrived in a vault is a gift
        let vaults: Vec<(Pubkey, Pubkey, Pubkey)> =
            self.hist.ps.keys().filter_map(|k| self.presale(k).map(|p| (*k, p.qvault, p.bvault))).collect();
        for (pk, qv, bv) in vaults {
            if created.contains(&pk) {
                continue;
            }
            let (xq, xb) = explained.get(&pk).copied().unwrap_or((0, 0));
            let h = self.hist.ps.get_mut(&pk).unwrap();
            h.donated_q += (delta(&qv) - xq).max(0) as u64;
            h.donated_b += (delta(&bv) - xb).max(0) as u64;
        }
        for (k, e) in closed {
            let eh = self.hist.es.remove(k).unwrap_or_default();
            let now = self.now();
            let Some(p) = self.presale(&e.presale).cloned() else { continue };
            let pr = progress(&p, now);
            // nothing may be lost by closing
            let owed = match pr {
                ONGOING | NOT_STARTED | FAILED => eh.paid.saturating_sub(eh.withdrawn).saturating_sub(eh.refunded),
                _ => {
                    let (x, y) = refund(&p, e, pr);
                    (x + y).saturating_sub(eh.refunded) + allocation(&p, e).saturating_sub(eh.claimed)
                }
            };
            if owed > 0 {
                out.push(Viol {
                    tags: t(&[18]) | match pr {
                        FAILED => t(&[9]),
                        COMPLETED => t(&[3]) | if p.mode == 1 && refund(&p, e, pr) != (0, 0) { t(&[10]) } else { 0 },
                        _ => t(&[9]),
                    },
                    class: "hist:closed-with-claims".into(),
                    msg: format!("escrow {} closed although its owner was still owed {owed}", self.w.label(k)),
                });
            }
            if let Some(h) = self.hist.ps.get_mut(&e.presale) {
                if let Some(c) = h.closed.get_mut(e.reg as usize) {
                    c.dep = c.dep.saturating_add(e.dep);
                    c.fee = c.fee.saturating_add(e.fee);
                    c.claimed = c.claimed.saturating_add(e.claimed);
                    c.refunded += eh.refunded;
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ invariants

    fn after(&mut self, touched: &[Pubkey]) -> Vec<Viol> {
        let mut out = vec![];
        let now = self.now();
        let list: Vec<(Pubkey, PState)> = self
            .prog
            .iter()
            .filter_map(|(k, v)| match v {
                Prg::Presale(p) => Some((*k, (**p).clone())),
                _ => None,
            })
            .collect();
        for (pk, p) in list {
            let Some(h) = self.hist.ps.get(&pk).cloned() else { continue };
            let es = self.escrows_of(&pk);
            let hit = touched.is_empty()
                || touched.iter().any(|k| *k == pk || *k == p.qvault || *k == p.bvault || es.iter().any(|(e, _)| e == k));
            if !hit {
                continue;
            }
            let pr = progress(&p, now);
            let name = self.w.label(&pk);
            let mut bad = |tags: Tags, class: &str, msg: String| {
                out.push(Viol { tags, class: format!("inv:{class}"), msg: format!("{name}: {msg}") })
            };
            // totals
            let mut tot = RegSum::default();
            let mut n_all = 0;
            for i in 0..5usize {
                let c = &h.closed[i];
                let mine: Vec<&(Pubkey, EState)> = es.iter().filter(|(_, e)| e.reg as usize == i).collect();
                let s = RegSum {
                    dep: mine.iter().fold(c.dep, |a, (_, e)| a.saturating_add(e.dep)),
                    fee: mine.iter().fold(c.fee, |a, (_, e)| a.saturating_add(e.fee)),
                    claimed: mine.iter().fold(c.claimed, |a, (_, e)| a.saturating_add(e.claimed)),
                    refunded: mine.iter().fold(c.refunded, |a, (k, _)| a.saturating_add(self.hist.es.get(k).map(|x| x.refunded).unwrap_or(0))),
                };
                let r = &p.regs[i];
                for (f, a, b) in [
                    ("deposit", s.dep, r.dep),
                    ("fee", s.fee, r.fee),
                    ("claimed", s.claimed, r.claimed),
                    ("refunded", s.refunded, r.refunded),
                    ("escrow count", mine.len() as u64, r.escrows),
                ] {
                    if a != b {
                        bad(t(&[19]), &format!("registry-{f}"), format!("registry {i} {f} is {b}, its escrows sum to {a}"));
                    }
                }
                n_all += mine.len() as u64;
                tot.dep = tot.dep.saturating_add(s.dep);
                tot.fee = tot.fee.saturating_add(s.fee);
                tot.claimed = tot.claimed.saturating_add(s.claimed);
                tot.refunded = tot.refunded.saturating_add(s.refunded);
            }
            for (f, a, b) in [
                ("deposit", tot.dep, p.dep),
                ("fee", tot.fee, p.fee),
                ("claimed", tot.claimed, p.claimed),
                ("refunded", tot.refunded, p.refunded),
                ("escrow count", n_all, p.escrows),
            ] {
                if a != b {
                    bad(t(&[19]), &format!("presale-{f}"), format!("presale {f} is {b}, its escrows sum to {a}"));
                }
            }
            // quote solvency: from what was really paid in, and from the books
            let qv = self.tok_amount(&p.qvault);
            let mut owed = 0u128;
            if pr == COMPLETED {
                if h.creator_q == 0 && p.creator_withdrawn == 0 {
                    owed += p.dep.min(p.max) as u128;
                }
                if p.fee_collected == 0 {
                    owed += creator_fee(&p) as u128;
                }
                for (k, e) in &es {
                    let (x, y) = refund(&p, e, pr);
                    let got = self.hist.es.get(k).map(|z| z.refunded).unwrap_or(0);
                    owed += (x as u128 + y as u128).saturating_sub(got as u128);
                }
            } else {
                for (k, _) in &es {
                    let z = self.hist.es.get(k).cloned().unwrap_or_default();
                    owed += z.paid.saturating_sub(z.withdrawn).saturating_sub(z.refunded) as u128;
                }
            }
            if (qv as u128) < owed {
                bad(t(&[1]) | if p.mode == 1 && pr == COMPLETED { t(&[10]) } else if pr == FAILED { t(&[9]) } else { 0 }, "quote-solvency", format!("quote vault holds {qv}, owes {owed}"));
            }
            // base solvency
            let bv = self.tok_amount(&p.bvault) as u128;
            let mut owed = 0u128;
            match pr {
                COMPLETED => {
                    let sold = total_sold(&p) as u128;
                    if p.unsold_done == 0 {
                        owed += (p.supply as u128).saturating_sub(sold);
                    }
                    for (k, e) in &es {
                        let got = self.hist.es.get(k).map(|z| z.claimed).unwrap_or(0);
                        owed += (allocation(&p, e) as u128).saturating_sub(got as u128);
                    }
                }
                FAILED => {
                    if p.creator_withdrawn == 0 {
                        owed += h.cfg.supply as u128;
                    }
                }
                _ => owed += h.cfg.supply as u128,
            }
            if bv < owed {
                bad(t(&[2]) | if p.unsold_done != 0 { t(&[12]) } else { 0 }, "base-solvency", format!("base vault holds {bv}, owes {owed}"));
            }
            // caps
            for (k, e) in &es {
                let r = &p.regs[(e.reg as usize).min(4)];
                if e.dep > 0 && (e.dep < r.min || e.dep > r.max || e.dep > e.cap) {
                    bad(t(&[5]), "buyer-cap", format!("escrow deposit {} outside [{}, {}] or above cap {}", e.dep, r.min, r.max, e.cap));
                }
                if e.cap < r.min || e.cap > r.max {
                    bad(t(&[5]), "cap-range", format!("personal cap {} outside [{}, {}]", e.cap, r.min, r.max));
                }
                if *k != self.w.pda_escrow(&pk, &e.owner, e.reg) {
                    bad(t(&[18, 14]), "escrow-address", "escrow is not at the address of its owner and registry".into());
                }
                if pr == COMPLETED {
                    let cum = e.claimed.saturating_add(e.pending);
                    let lim = claimable(&p, e, now);
                    if cum > lim {
                        bad(t(&[3, 2]), "over-claim", format!("claimed and pending {cum} above vested {lim}"));
                    }
                }
            }
            if p.mode != 1 && p.dep > p.max {
                bad(t(&[5]), "presale-cap", format!("total deposit {} above the cap {}", p.dep, p.max));
            }
            if p.mode == 0 {
                for r in &p.regs[..p.nreg.min(5) as usize] {
                    // every purchase is rounded up, so the last one may reach one token further
                    let full = cost(p.q, r.supply as u128 + 1) + ruint::aliases::U256::from(1u64);
                    if ruint::aliases::U256::from(r.dep) > full {
                        bad(t(&[5, 4]), "registry-oversold", format!("registry deposit {} above the price of its supply {}", r.dep, r.supply));
                    }
                }
            }
            // outcome is final
            if pr == COMPLETED || pr == FAILED {
                match h.outcome {
                    None => self.hist.ps.get_mut(&pk).unwrap().outcome = Some((pr, p.end, p.dep)),
                    Some(o) => {
                        if o != (pr, p.end, p.dep) {
                            bad(t(&[7]), "outcome-changed", format!("outcome (state, end, deposits) was {o:?}, now {:?}", (pr, p.end, p.dep)));
                        }
                    }
                }
            } else if let Some(o) = h.outcome {
                bad(t(&[7]), "reopened", format!("sale reopened after {o:?}"));
            }
            // configuration is final
            for (f, a, b) in diff_presale(&h.cfg, &p) {
                let stat = !matches!(
                    f.as_str(),
                    "dep" | "escrows" | "claimed" | "refunded" | "fee" | "fee_collected" | "creator_withdrawn" | "unsold_done"
                        | "end" | "imm_ts" | "vest_start" | "vest_end" | "regs.dep" | "regs.escrows" | "regs.claimed" | "regs.refunded" | "regs.fee"
                );
                if stat {
                    bad(presale_field_tags("cfg", &f, 0) | t(&[20]), &format!("config-{f}"), format!("configured {f} was {a}, now {b}"));
                }
            }
            let c = &h.cfg;
            let sched = (p.end, p.imm_ts, p.vest_start, p.vest_end);
            if sched != (c.end, c.imm_ts, c.vest_start, c.vest_end) {
                let d = c.imm_ts.saturating_sub(c.end);
                let at = |x: u64| p.end.saturating_add(x);
                let shifted = (p.end, at(d), at(c.lock), at(c.lock.saturating_add(c.vest)));
                let may = c.mode != 1 && c.dee == 0 && p.dep >= c.max && p.end <= c.end;
                if !may || sched != shifted {
                    bad(t(&[8, 20]), "schedule", format!("schedule (end, release, vest start, vest end) {sched:?} not explained by {:?}", (c.end, c.imm_ts, c.vest_start, c.vest_end)));
                }
            } else if c.mode != 1 && c.dee == 0 && p.dep >= c.max && pr == ONGOING {
                bad(t(&[8]), "not-ended-at-cap", "cap reached but the sale is still open".into());
            }
            self.stats.hit(&format!("reach.mode{}.{}", p.mode, ["notstarted", "ongoing", "completed", "failed"][pr as usize]));
            // abstract state for coverage
            let b = |x: u64, m: u64| -> u8 {
                if x == 0 {
                    0
                } else if x < m {
                    1
                } else if x == m {
                    2
                } else {
                    3
                }
            };
            let mut sig = vec![p.mode, p.wl, pr, p.nreg, p.fee_collected, p.creator_withdrawn, p.unsold_done, p.unsold_action, p.dw, p.dee, b(p.dep, p.max), b(p.dep, p.min), p.bflag, p.qflag];
            sig.push((p.imm_bps > 0) as u8 + 2 * (p.lock > 0) as u8 + 4 * (p.vest > 0) as u8);
            sig.push((now >= p.imm_ts) as u8 + 2 * (now >= p.vest_start) as u8 + 4 * (now >= p.vest_end) as u8);
            for (_, e) in &es {
                sig.extend_from_slice(&[
                    e.reg,
                    b(e.dep, p.regs[(e.reg as usize).min(4)].max),
                    (e.fee > 0) as u8,
                    b(e.claimed, allocation(&p, e)),
                    (e.pending > 0) as u8,
                    e.refunded,
                ]);
            }
            let hsh = hashv(&[&sig]).to_bytes();
            self.stats.states.insert(u64::from_le_bytes(hsh[..8].try_into().unwrap()));
        }
        out
    }

    // ------------------------------------------------------------ liveness

    /// the payouts still open, in random order
    fn drain_acts(&mut self, rng: &mut Rng, creators: bool, buyers: bool) -> Vec<Viol> {
        let mut out: Vec<Viol> = vec![];
        let n = self.w.cfg.presales.len() as u8;
        let mut acts: Vec<(u8, u8, IxSpec)> = vec![];
        for i in 0..n {
            let pk = self.w.key(K::P(i));
            let Some(p) = self.presale(&pk).cloned() else { continue };
            let pr = progress(&p, self.now());
            // a creator that is no wallet (a stray address) cannot take part
            let creator = self.wallet_of(&p.owner);
            if let (true, 0, Some(cw)) = (creators, p.creator_withdrawn, creator) {
                acts.push((i, 0, build::crwd(self, i, cw, false)));
            }
            if let (true, COMPLETED, Some(cw)) = (creators, pr, creator) {
                if p.fee_collected == 0 {
                    acts.push((i, 1, build::fee(self, i, cw, false)));
                }
                if p.unsold_done == 0 && total_sold(&p) < p.supply {
                    acts.push((i, 2, build::unsold(self, i)));
                }
            }
            for (_, e) in if buyers { self.escrows_of(&pk) } else { vec![] } {
                let Some(ow) = self.wallet_of(&e.owner) else { continue };
                if pr == COMPLETED {
                    acts.push((i, 3, build::claim(self, i, ow, e.reg, false)));
                }
                if e.refunded == 0 && (pr == FAILED || (pr == COMPLETED && p.mode == 1)) {
                    acts.push((i, 4, build::refund(self, i, ow, e.reg, false)));
                }
            }
        }
        for i in (1..acts.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            acts.swap(i, j);
        }
        for (i, what, ix) in acts {
            let k = ix.op.kind();
            out.extend(self.sub(&Step::Tx { ixs: vec![ix], fail: None }));
            if !self.last_ok {
                let tg = t(&[21]) | match what {
                    0 | 1 => t(&[11]),
                    2 => t(&[12]),
                    3 => t(&[3, 4]),
                    _ => 0,
                } | match self.p(i).map(|p| progress(p, self.now())) {
                    Some(FAILED) => t(&[9]),
                    _ if what == 4 => t(&[10]),
                    _ => 0,
                };
                out.push(Viol {
                    tags: tg,
                    class: format!("drain:{k}"),
                    msg: format!("after all faults stopped {k} of presale {i} still fails: {}", self.last_err),
                });
            }
        }
        out
    }

    /// Faults stop, time passes, everybody takes what they are entitled to.
    fn drain(&mut self, order: u64, late: u64) -> Vec<Viol> {
        let mut out: Vec<Viol> = vec![];
        let mut rng = Rng::new(order);
        self.stats.hit("drain.runs");
        // transient faults stop
        for m in 0..self.w.cfg.mints.len() as u8 {
            if self.w.cfg.mints[m as usize].hook() {
                let _ = self.step(&Step::HookFail { m, on: false });
            }
            let mut keys = vec![];
            for w in 0..self.w.cfg.wallets {
                keys.push(K::Tok(w, m));
                keys.push(K::Tok2(w, m));
            }
            for p in 0..self.w.cfg.presales.len() as u8 {
                keys.push(K::BV(p));
                keys.push(K::QV(p));
            }
            for k in keys {
                let kk = self.w.key(k);
                if self.bank.get(&kk).and_then(tok_view).map(|x| x.frozen && x.mint == self.w.key(K::M(m))).unwrap_or(false) {
                    let _ = self.step(&Step::Freeze { at: k, m, on: false });
                }
            }
        }
        let n = self.w.cfg.presales.len() as u8;
        let mut far = self.now();
        for i in 0..n {
            if let Some(p) = self.p(i) {
                far = far.max(p.end);
            }
        }
        let stages = 1 + rng.below(3);
        // in part of the runs the creator comes only after every buyer has left and closed
        let creator_last = rng.pct(35);
        if creator_last {
            self.stats.hit("drain.creator_last");
        }
        let mut tail = far;
        for i in 0..n {
            if let Some(p) = self.p(i) {
                tail = tail.max(p.vest_start.saturating_add(p.vest)).max(p.imm_ts);
            }
        }
        tail += late;
        for st in 0..stages {
            let to = if st + 1 == stages { tail } else { rng.range(far, tail) };
            if to > self.now() {
                let d = to - self.now();
                out.extend(self.sub(&Step::Time(d)));
            }
            out.extend(self.drain_acts(&mut rng, !creator_last, true));
        }
        // everybody closes
        for i in 0..n {
            let pk = self.w.key(K::P(i));
            for (k, e) in self.escrows_of(&pk) {
                let z = self.hist.es.get(&k).cloned().unwrap_or_default();
                self.outcome.insert(format!("{}.claimed", self.w.label(&k)), z.claimed);
                self.outcome.insert(format!("{}.refunded", self.w.label(&k)), z.refunded + z.withdrawn);
                let Some(ow) = self.wallet_of(&e.owner) else { continue };
                let ix = build::close(self, i, ow, e.reg, ow);
                out.extend(self.sub(&Step::Tx { ixs: vec![ix], fail: None }));
                if !self.last_ok {
                    out.push(Viol {
                        tags: t(&[21, 18]),
                        class: "drain:Close".into(),
                        msg: format!("escrow {} cannot be closed after everything was taken: {}", self.w.label(&k), self.last_err),
                    });
                }
            }
        }
        if creator_last {
            out.extend(self.drain_acts(&mut rng, true, false));
        }
        for i in 0..n {
            let pk = self.w.key(K::P(i));
            let Some(p) = self.presale(&pk).cloned() else { continue };
            let Some(h) = self.hist.ps.get(&pk).cloned() else { continue };
            let strays = self.wallet_of(&p.owner).is_none() || !self.escrows_of(&pk).iter().all(|(_, e)| self.wallet_of(&e.owner).is_some());
            let pr = progress(&p, self.now());
            let now_h = self.hist.ps.get(&pk).cloned().unwrap_or(h.clone());
            self.outcome.insert(format!("{i}.creator_q"), now_h.creator_q);
            self.outcome.insert(format!("{i}.creator_b"), now_h.creator_b);
            self.outcome.insert(format!("{i}.fees"), now_h.fees);
            self.outcome.insert(format!("{i}.unsold"), now_h.unsold);
            self.outcome.insert(format!("{i}.progress"), pr as u64);
            let qv = self.tok_amount(&p.qvault);
            let bv = self.tok_amount(&p.bvault);
            self.outcome.insert(format!("{i}.qleft"), qv.wrapping_sub(h.donated_q));
            self.outcome.insert(format!("{i}.bleft"), bv.wrapping_sub(h.donated_b));
            let dust = if pr == FAILED { 0 } else { 2 * (h.ever + p.nreg as u64) };
            for (nm, v, d) in [("quote", qv, h.donated_q), ("base", bv, h.donated_b)] {
                if !strays && (v < d || v - d > dust) {
                    out.push(Viol {
                        tags: t(&[21])
                            | if nm == "quote" { t(&[1, 11]) } else { t(&[2, 12]) }
                            | if pr == FAILED { t(&[9]) } else { 0 }
                            | if p.mode == 1 && nm == "quote" { t(&[10]) } else { 0 },
                        class: format!("drain:{nm}-left"),
                        msg: format!("presale {i}: {nm} vault holds {v} after everybody left, donations {d}, allowed dust {dust}"),
                    });
                }
            }
        }
        out
    }

    fn drain_pair(&mut self, a: u64, b: u64, late: u64) -> Vec<Viol> {
        let mut x = self.fork();
        let mut out = x.drain(a, late);
        if out.is_empty() {
            let mut y = self.fork();
            out = y.drain(b, late);
            if out.is_empty() {
                if let Some(d) = outcome_diff(&x.outcome, &y.outcome) {
                    out.push(Viol {
                        tags: t(&[21, 11, 10, 4, 3]),
                        class: "drain:order".into(),
                        msg: format!("the order of exits changes what parties receive: {d}"),
                    });
                }
                self.stats.merge(&y.stats);
            }
        }
        self.stats.merge(&x.stats);
        self.note(&format!("drainpair {}", x.log));
        out
    }

    fn sub(&mut self, s: &Step) -> Vec<Viol> {
        // nested step: collect everything, the caller reports
        let keep = self.target;
        self.target = 0;
        let n = self.foreign.len();
        let _ = self.step(s);
        self.target = keep;
        self.foreign.split_off(n)
    }

    pub fn wallet_of(&self, k: &Pubkey) -> Option<u8> {
        (0..self.w.cfg.wallets).find(|i| self.w.key(K::W(*i)) == *k)
    }

    pub fn fork(&self) -> Engine<'w> {
        Engine {
            w: self.w,
            bank: self.bank.clone(),
            hist: self.hist.clone(),
            prog: self.prog.clone(),
            roots: self.roots.clone(),
            target: self.target,
            stats: Stats::default(),
            snap: None,
            foreign: vec![],
            log: self.log,
            verbose: self.verbose,
            last_ok: true,
            last_err: String::new(),
            outcome: BTreeMap::new(),
        }
    }
}
