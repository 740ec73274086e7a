//! A deterministic in-process ledger that runs the real program code.
//!
//! One `Bank` is the whole durable state. A transaction either commits all its account changes or none.
//! The account-ownership, privilege, lamport-conservation, rent-exemption, call-depth and reentrancy rules of
//! the Solana runtime are enforced here; the clock, rent, CPI and stack-height syscalls are the seams.
use crate::programs;
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
};
use std::{
    cell::{Cell as StdCell, RefCell},
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::Arc,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acct {
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, data: vec![], owner: system_program::ID, executable: false }
    }
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub struct Bank {
    pub accounts: BTreeMap<Pubkey, Arc<Acct>>,
    pub ts: i64,
    pub slot: u64,
    pub epoch: u64,
}

#[derive(Debug, Clone)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    /// event payloads (discriminator + borsh) per top-level instruction
    pub events: Vec<(usize, Vec<u8>)>,
    pub cpis: u32,
    pub injected: bool,
    pub panicked: bool,
    /// keys whose committed content differs from before the transaction
    pub changed: BTreeMap<Pubkey, (Option<Arc<Acct>>, Option<Arc<Acct>>)>,
}

pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}

const PAD: usize = 10240;

struct AccountCell {
    key_blk: Box<[u8; 48]>, // [4..8]=orig len, [8..40]=key
    owner: Box<Pubkey>,
    lamports: Box<u64>,
    buf: Vec<u128>, // [0..8]=len, [8..]=data
    executable: bool,
}

impl AccountCell {
    fn new(key: &Pubkey, a: &Acct) -> Self {
        let mut key_blk = Box::new([0u8; 48]);
        key_blk[4..8].copy_from_slice(&(a.data.len() as u32).to_le_bytes());
        key_blk[8..40].copy_from_slice(key.as_ref());
        let words = (8 + a.data.len() + PAD) / 16 + 2;
        let mut c = AccountCell {
            key_blk,
            owner: Box::new(a.owner),
            lamports: Box::new(a.lamports),
            buf: vec![0u128; words],
            executable: a.executable,
        };
        c.set_len(a.data.len());
        c.data_mut().copy_from_slice(&a.data);
        c
    }
    fn base(&self) -> *mut u8 {
        self.buf.as_ptr() as *mut u8
    }
    pub fn len(&self) -> usize {
        unsafe { *(self.base() as *const u64) as usize }
    }
    fn set_len(&mut self, n: usize) {
        unsafe { *(self.base() as *mut u64) = n as u64 }
    }
    fn data(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base().add(8), self.len()) }
    }
    fn data_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base().add(8), self.len()) }
    }
    fn snap(&self) -> Acct {
        Acct { lamports: *self.lamports, data: self.data().to_vec(), owner: *self.owner, executable: self.executable }
    }
    fn same(&self, a: &Acct) -> bool {
        *self.lamports == a.lamports && *self.owner == a.owner && self.data() == &a.data[..]
    }
}

pub struct Frame {
    pub program: Pubkey,
    pub metas: BTreeMap<Pubkey, (bool, bool)>,
    snap: BTreeMap<Pubkey, Acct>,
    /// instructions this one has invoked so far
    children: Vec<Instruction>,
}

pub struct TxCtx {
    cells: BTreeMap<Pubkey, AccountCell>,
    pub stack: Vec<Frame>,
    pub cpis: u32,
    fail_cpi: Option<u32>,
    injected: bool,
    pub aborted: Option<String>,
    panicked: bool,
    pub events: Vec<(usize, Vec<u8>)>,
    pub top: usize,
    tops: Vec<Instruction>,
    clock: Clock,
}

thread_local! {
    static CTX: StdCell<*mut TxCtx> = const { StdCell::new(std::ptr::null_mut()) };
    pub static QUIET_PANIC: StdCell<bool> = const { StdCell::new(false) };
}

fn ctx() -> Option<&'static mut TxCtx> {
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        match ctx() {
            Some(c) => {
                unsafe { *(var as *mut Clock) = c.clock.clone() };
                0
            }
            None => 1,
        }
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        let c = ctx()?;
        let n = c.stack.len();
        let list = if n >= 2 { &c.stack[n - 2].children } else { &c.tops };
        list.iter().rev().nth(index + 1).cloned()
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().map(|c| c.stack.len() as u64).unwrap_or(0)
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let c = ctx().expect("cpi outside of a transaction");
        match c.cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failing CPI aborts the whole transaction, whatever the caller does with the error
                if c.aborted.is_none() {
                    c.aborted = Some(format!("cpi {}: {}", programs::name(&ix.program_id), e));
                }
                Err(ProgramError::Custom(0xFA17))
            }
        }
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET_PANIC.with(|q| q.get()) {
            prev(i)
        }
    }));
}

type R<T> = Result<T, String>;

impl TxCtx {
    fn cpi(&mut self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> R<()> {
        if self.aborted.is_some() {
            return Err("already aborted".into());
        }
        self.cpis += 1;
        if self.fail_cpi == Some(self.cpis) {
            self.injected = true;
            return Err("injected fault".into());
        }
        let caller = self.stack.last().unwrap().program;
        let mut pdas = BTreeSet::new();
        for s in seeds {
            pdas.insert(Pubkey::create_program_address(s, &caller).map_err(|e| format!("seeds {e:?}"))?);
        }
        let mut merged: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        let mut order = vec![];
        {
            let f = self.stack.last().unwrap();
            if !f.metas.contains_key(&ix.program_id) {
                return Err("callee program not among the caller's accounts".into());
            }
            for m in &ix.accounts {
                if !infos.iter().any(|i| *i.key == m.pubkey) {
                    return Err(format!("missing account info {}", m.pubkey));
                }
                let Some((s, w)) = f.metas.get(&m.pubkey) else {
                    return Err(format!("missing account {}", m.pubkey));
                };
                if m.is_writable && !*w {
                    return Err(format!("writable privilege escalated {}", m.pubkey));
                }
                if m.is_signer && !*s && !pdas.contains(&m.pubkey) {
                    return Err(format!("signer privilege escalated {}", m.pubkey));
                }
                order.push(m.pubkey);
                let e = merged.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
        }
        self.verify_top("caller")?;
        let r = self.run(ix.program_id, order, merged, &ix.data);
        r?;
        // the caller sees new data lengths
        for i in infos {
            if let Some(c) = self.cells.get(i.key) {
                if i.data_len_unchecked() != c.len() {
                    let p = unsafe { c.base().add(8) };
                    let n = c.len();
                    if let Ok(mut d) = i.data.try_borrow_mut() {
                        *d = unsafe { std::slice::from_raw_parts_mut(p, n) };
                    }
                }
            }
        }
        self.resnap_top();
        Ok(())
    }

    fn run(
        &mut self,
        program: Pubkey,
        order: Vec<Pubkey>,
        metas: BTreeMap<Pubkey, (bool, bool)>,
        data: &[u8],
    ) -> R<()> {
        if self.stack.len() >= 5 {
            return Err("call depth".into());
        }
        if self.stack.iter().rev().skip(1).any(|f| f.program == program)
            || (self.stack.last().map(|f| f.program == program).unwrap_or(false) && false)
        {
            return Err("reentrancy".into());
        }
        let Some(pc) = self.cells.get(&program) else { return Err("program not loaded".into()) };
        if !pc.executable {
            return Err("program not executable".into());
        }
        let mut snap = BTreeMap::new();
        for k in metas.keys() {
            snap.insert(*k, self.cells.get(k).ok_or("account not loaded")?.snap());
        }
        // AccountInfos over the shared memory, duplicates share their RefCells
        let mut uniq: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
        for (k, (s, w)) in &metas {
            let c = self.cells.get_mut(k).unwrap();
            let ai = unsafe {
                AccountInfo {
                    key: &*(c.key_blk.as_ptr().add(8) as *const Pubkey),
                    is_signer: *s,
                    is_writable: *w,
                    lamports: Rc::new(RefCell::new(&mut *(&mut *c.lamports as *mut u64))),
                    data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(c.base().add(8), c.len()))),
                    owner: &*(&*c.owner as *const Pubkey),
                    executable: c.executable,
                    rent_epoch: u64::MAX,
                }
            };
            uniq.insert(*k, ai);
        }
        let infos: Vec<AccountInfo<'static>> = order.iter().map(|k| uniq[k].clone()).collect();
        let this = Instruction { program_id: program, accounts: vec![], data: data.to_vec() };
        match self.stack.last_mut() {
            Some(f) => f.children.push(this),
            None => self.tops.push(this),
        }
        self.stack.push(Frame { program, metas, snap, children: vec![] });
        let height = self.stack.len();
        let infos_ref: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&infos[..]) };
        QUIET_PANIC.with(|q| q.set(true));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            programs::dispatch(&program, infos_ref, data)
        }));
        if height == 1 {
            QUIET_PANIC.with(|q| q.set(false));
        }
        drop(uniq);
        drop(infos);
        let out = match res {
            Err(_) => {
                self.panicked = true;
                Err("panicked".to_string())
            }
            Ok(Err(e)) => Err(format!("{e:?}")),
            Ok(Ok(())) => self.verify_top("callee"),
        };
        self.stack.truncate(height - 1);
        if out.is_ok() && program == crate::abi::PROGRAM && data.len() >= 8 && data[..8] == crate::abi::EVENT_TAG {
            self.events.push((self.top, data[8..].to_vec()));
        }
        if let (Ok(()), Some(a)) = (&out, &self.aborted) {
            return Err(a.clone());
        }
        out
    }

    fn resnap_top(&mut self) {
        let f = self.stack.last_mut().unwrap();
        for (k, s) in f.snap.iter_mut() {
            let c = &self.cells[k];
            if !c.same(s) {
                *s = c.snap();
            }
        }
    }

    fn verify_top(&mut self, who: &str) -> R<()> {
        let f = self.stack.last_mut().unwrap();
        let mut pre_sum = 0u128;
        let mut post_sum = 0u128;
        for (k, s) in f.snap.iter_mut() {
            let c = &self.cells[k];
            pre_sum += s.lamports as u128;
            post_sum += *c.lamports as u128;
            if c.same(s) {
                continue;
            }
            let (_, w) = f.metas[k];
            if !w {
                return Err(format!("{who}: readonly account {k} modified"));
            }
            if s.executable {
                return Err(format!("{who}: executable account {k} modified"));
            }
            if c.data() != &s.data[..] && s.owner != f.program {
                return Err(format!("{who}: data of {k} modified by non-owner"));
            }
            if *c.lamports < s.lamports && s.owner != f.program {
                return Err(format!("{who}: lamports of {k} spent by non-owner"));
            }
            if *c.owner != s.owner {
                if s.owner != f.program || c.data().iter().any(|b| *b != 0) {
                    return Err(format!("{who}: illegal owner change of {k}"));
                }
            }
            *s = c.snap();
        }
        if pre_sum != post_sum {
            return Err(format!("{who}: lamports not conserved"));
        }
        Ok(())
    }

    // access used by the built-in system program
    pub fn sys_get(&self, k: &Pubkey) -> (u64, usize, Pubkey) {
        let c = &self.cells[k];
        (*c.lamports, c.len(), *c.owner)
    }
    pub fn sys_set_lamports(&mut self, k: &Pubkey, v: u64) {
        *self.cells.get_mut(k).unwrap().lamports = v;
    }
    pub fn sys_allocate(&mut self, k: &Pubkey, n: usize) {
        let c = self.cells.get_mut(k).unwrap();
        c.set_len(n);
        c.data_mut().fill(0);
    }
    pub fn sys_assign(&mut self, k: &Pubkey, o: &Pubkey) {
        *self.cells.get_mut(k).unwrap().owner = *o;
    }
    pub fn frame_flags(&self, k: &Pubkey) -> (bool, bool) {
        self.stack.last().unwrap().metas.get(k).copied().unwrap_or((false, false))
    }
}

pub fn with_ctx<T>(f: impl FnOnce(&mut TxCtx) -> T) -> T {
    f(ctx().expect("no tx"))
}

trait DataLenUnchecked {
    fn data_len_unchecked(&self) -> usize;
}
impl DataLenUnchecked for AccountInfo<'_> {
    fn data_len_unchecked(&self) -> usize {
        unsafe { (&*self.data.as_ptr()).len() }
    }
}

impl Bank {
    pub fn new() -> Self {
        Bank { accounts: BTreeMap::new(), ts: 1_700_000_000, slot: 1, epoch: 0 }
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accounts.get(k).map(|a| &**a)
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        if a.lamports == 0 {
            self.accounts.remove(&k);
        } else {
            self.accounts.insert(k, Arc::new(a));
        }
    }

    pub fn exec(&mut self, ixs: &[Ix], fail_cpi: Option<u32>) -> TxResult {
        // transaction-level privileges are the union over instructions
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            flags.entry(ix.program).or_insert((false, false));
            for m in &ix.metas {
                let e = flags.entry(m.key).or_insert((false, false));
                e.0 |= m.signer;
                e.1 |= m.writable;
            }
        }
        let mut cells = BTreeMap::new();
        let empty = Acct::wallet(0);
        for (k, f) in flags.iter_mut() {
            let a = self.accounts.get(k).map(|a| &**a).unwrap_or(&empty);
            if a.executable {
                f.1 = false; // programs are never write-locked
            }
            cells.insert(*k, AccountCell::new(k, a));
        }
        let mut c = TxCtx {
            cells,
            stack: vec![],
            cpis: 0,
            fail_cpi,
            injected: false,
            aborted: None,
            panicked: false,
            events: vec![],
            top: 0,
            tops: vec![],
            clock: Clock {
                slot: self.slot,
                epoch_start_timestamp: self.ts,
                epoch: self.epoch,
                leader_schedule_epoch: self.epoch + 1,
                unix_timestamp: self.ts,
            },
        };
        let mut err = String::new();
        let mut ok = true;
        for (i, ix) in ixs.iter().enumerate() {
            c.top = i;
            // orig len is per instruction
            for cell in c.cells.values_mut() {
                let n = cell.len() as u32;
                cell.key_blk[4..8].copy_from_slice(&n.to_le_bytes());
            }
            let order: Vec<Pubkey> = ix.metas.iter().map(|m| m.key).collect();
            let mut metas: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
            for m in &ix.metas {
                metas.insert(m.key, flags[&m.key]);
            }
            // runtime passes transaction-level flags
            CTX.with(|p| p.set(&mut c as *mut TxCtx));
            let r = c.run(ix.program, order, metas, &ix.data);
            CTX.with(|p| p.set(std::ptr::null_mut()));
            if let Err(e) = r {
                ok = false;
                err = format!("ix{i}: {e}");
                if let Some(a) = &c.aborted {
                    err.push_str(&format!(" [{a}]"));
                }
                break;
            }
        }
        let mut changed = BTreeMap::new();
        if ok {
            for (k, cell) in &c.cells {
                let pre = self.accounts.get(k).cloned();
                let same = match &pre {
                    Some(a) => cell.same(a),
                    None => *cell.lamports == 0,
                };
                if same {
                    continue;
                }
                let post = cell.snap();
                if post.lamports > 0 && post.lamports < rent_min(post.data.len()) {
                    let pre_rp = pre.as_ref().map(|p| p.lamports < rent_min(p.data.len()) && p.data.len() == post.data.len() && post.lamports <= p.lamports).unwrap_or(false);
                    if !pre_rp {
                        ok = false;
                        err = format!("insufficient funds for rent {k}");
                        break;
                    }
                }
                let post = if post.lamports == 0 { None } else { Some(Arc::new(post)) };
                changed.insert(*k, (pre, post));
            }
        }
        let mut events = c.events;
        if ok {
            for (k, (_, post)) in &changed {
                match post {
                    Some(a) => {
                        self.accounts.insert(*k, a.clone());
                    }
                    None => {
                        self.accounts.remove(k);
                    }
                }
            }
        } else {
            changed.clear();
            events.clear();
        }
        TxResult { ok, err, events, cpis: c.cpis, injected: c.injected, panicked: c.panicked, changed }
    }
}
