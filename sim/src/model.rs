//! Executable reference model. Given the state before a transaction and the transaction itself it says whether
//! the transaction must be accepted, and if so the exact state, token movements and events afterwards.
use crate::abi::*;
use crate::bank::{Acct, Bank};
use crate::world::*;
use ruint::aliases::U256;
use solana_program::{hash::hashv, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

pub type Tags = u32;
pub const fn t(ids: &[u8]) -> Tags {
    let mut m = 0u32;
    let mut i = 0;
    while i < ids.len() {
        m |= 1 << ids[i];
        i += 1;
    }
    m
}
pub fn tag_list(m: Tags) -> Vec<String> {
    (1..=26).filter(|i| m & (1 << i) != 0).map(|i| format!("C{i:02}")).collect()
}
pub fn tag_of(id: &str) -> Tags {
    let n: u32 = id.trim_start_matches('C').parse().unwrap_or(0);
    1 << n
}

/// instructions on operator grants, price parameters, whitelist roots and server links
pub fn is_record(kind: &str) -> bool {
    matches!(kind, "Args" | "CloseArgs" | "MrCreate" | "MrClose" | "OpCreate" | "OpRevoke" | "MetaCreate" | "MetaClose")
}

pub const NOT_STARTED: u8 = 0;
pub const ONGOING: u8 = 1;
pub const COMPLETED: u8 = 2;
pub const FAILED: u8 = 3;

pub fn progress(p: &PState, now: u64) -> u8 {
    if now < p.start {
        NOT_STARTED
    } else if now < p.end {
        ONGOING
    } else if p.dep >= p.min {
        COMPLETED
    } else {
        FAILED
    }
}

// ---------------------------------------------------------------- arithmetic of the specification

pub fn bought(q: u128, amt: u64) -> u128 {
    if q == 0 {
        return 0;
    }
    ((amt as u128) << 64) / q
}
pub fn cost(q: u128, tokens: u128) -> U256 {
    let x = U256::from(tokens) * U256::from(q);
    let s = U256::from(1u128 << 64);
    let d = x / s;
    if x % s != U256::ZERO {
        d + U256::from(1u64)
    } else {
        d
    }
}
fn sat64(x: U256) -> u64 {
    if x > U256::from(u64::MAX) {
        u64::MAX
    } else {
        x.to::<u64>()
    }
}
pub fn muldiv(a: u64, b: u64, c: u64) -> u64 {
    if c == 0 {
        return 0;
    }
    ((a as u128 * b as u128) / c as u128) as u64
}
pub fn muldiv128(a: u128, b: u64, c: u64) -> u64 {
    if c == 0 {
        return 0;
    }
    let x = U256::from(a) * U256::from(b) / U256::from(c);
    sat64(x)
}
/// fee such that fee is bps of (amount + fee), rounded up
pub fn dep_fee(amount: u64, bps: u16) -> Option<u64> {
    let tot = (amount as u128 * 10_000).div_ceil(10_000 - bps as u128);
    u64::try_from(tot).ok().map(|t| t - amount)
}
pub fn reg_sold(p: &PState, r: &Reg) -> u64 {
    if p.mode == 0 {
        bought(p.q, r.dep).min(r.supply as u128) as u64
    } else {
        r.supply
    }
}
pub fn total_sold(p: &PState) -> u64 {
    p.regs[..p.nreg.min(5) as usize].iter().filter(|r| r.dep > 0).map(|r| reg_sold(p, r)).sum()
}
/// cumulative tokens a buyer may have claimed by `now`
pub fn claimable(p: &PState, e: &EState, now: u64) -> u64 {
    let r = &p.regs[e.reg as usize];
    if e.dep == 0 || r.dep == 0 {
        return 0;
    }
    let sold = reg_sold(p, r);
    let imm = muldiv(sold, p.imm_bps as u64, 10_000);
    let vested = sold - imm;
    let a = if now >= p.imm_ts { muldiv(imm, e.dep, r.dep) } else { 0 };
    let b = if now < p.vest_start {
        0
    } else {
        let drip = if p.vest == 0 { vested } else { muldiv(vested, (now - p.vest_start).min(p.vest), p.vest) };
        muldiv(drip, e.dep, r.dep)
    };
    a + b
}
pub fn allocation(p: &PState, e: &EState) -> u64 {
    claimable(p, e, p.vest_start.saturating_add(p.vest).max(p.imm_ts))
}
pub fn excess(p: &PState) -> u64 {
    p.dep.saturating_sub(p.max)
}
fn reg_refund(p: &PState, r: &Reg) -> (u64, u64) {
    if p.dep == 0 || r.dep == 0 {
        return (0, 0);
    }
    let a = muldiv(excess(p), r.dep, p.dep);
    (a, muldiv(r.fee, a, r.dep))
}
/// (deposit part, fee part) refundable to a buyer after the end
pub fn refund(p: &PState, e: &EState, prog: u8) -> (u64, u64) {
    if prog == FAILED {
        return (e.dep, e.fee);
    }
    if prog != COMPLETED || p.mode != 1 {
        return (0, 0);
    }
    let r = &p.regs[e.reg as usize];
    let (ra, rf) = reg_refund(p, r);
    (muldiv(e.dep, ra, r.dep), muldiv(e.fee, rf, r.fee))
}
pub fn creator_fee(p: &PState) -> u64 {
    if p.mode == 1 {
        p.regs[..p.nreg.min(5) as usize].iter().map(|r| r.fee - reg_refund(p, r).1).sum()
    } else {
        p.fee
    }
}
pub fn quota(p: &PState, e: &EState) -> u64 {
    let r = &p.regs[e.reg as usize];
    let personal = r.max.min(e.cap).saturating_sub(e.dep);
    match p.mode {
        1 => personal,
        2 => personal.min(p.max.saturating_sub(p.dep)),
        _ => {
            let sold = bought(p.q, r.dep).min(r.supply as u128) as u64;
            if sold == r.supply {
                return 0;
            }
            let left = sat64(cost(p.q, (r.supply - sold) as u128));
            personal.min(p.max.saturating_sub(p.dep)).min(left)
        }
    }
}
pub fn whole(q: u128, amt: u64) -> u64 {
    sat64(cost(q, bought(q, amt)))
}

pub fn leaf(owner: &Pubkey, reg: u8, cap: u64) -> [u8; 32] {
    let n = hashv(&[owner.as_ref(), &[reg], &cap.to_le_bytes()]);
    hashv(&[&[0u8], &n.to_bytes()]).to_bytes()
}
pub fn join(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    if a <= b {
        hashv(&[&[1u8], a, b]).to_bytes()
    } else {
        hashv(&[&[1u8], b, a]).to_bytes()
    }
}
pub fn proof_root(proof: &[[u8; 32]], leaf: [u8; 32]) -> [u8; 32] {
    proof.iter().fold(leaf, |h, p| join(&h, p))
}
/// levels of a tree over these leaves (last node paired with itself on odd levels)
pub fn tree(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut lv = vec![leaves.to_vec()];
    while lv.last().unwrap().len() > 1 {
        let c = lv.last().unwrap();
        let n: Vec<_> = c.chunks(2).map(|x| join(&x[0], x.get(1).unwrap_or(&x[0]))).collect();
        lv.push(n);
    }
    lv
}
pub fn tree_proof(lv: &[Vec<[u8; 32]>], mut i: usize) -> Vec<[u8; 32]> {
    let mut out = vec![];
    for l in &lv[..lv.len() - 1] {
        let s = i ^ 1;
        out.push(*l.get(s).unwrap_or(&l[i]));
        i /= 2;
    }
    out
}

/// every rule an accepted configuration satisfies; returns the violated ones
/// an empty slice of the right type is as good as none; what a repeated one means is left open
fn plain(h: HookArg, q: bool) -> Option<HookArg> {
    match h {
        HookArg::Zero { quote } if quote == q => Some(HookArg::None),
        HookArg::ZeroMint { m, quote } => Some(HookArg::Mint { m, quote }),
        HookArg::Zero { .. } | HookArg::Dup { .. } => None,
        h => Some(h),
    }
}

pub fn cfg_violations(c: &InitCfg, now: u64, q: Option<u128>) -> Vec<&'static str> {
    let mut v = vec![];
    let mut need = |b: bool, s: &'static str| {
        if !b {
            v.push(s)
        }
    };
    need(c.max >= c.min, "min cap above max cap");
    need(c.min > 0, "zero min cap");
    let start = c.start.max(now);
    need(c.end > start, "ends before start");
    if c.end > start {
        let d = c.end - start;
        need(d >= 60, "too short");
        need(d <= 30 * 86400, "too long");
    }
    need(start - now <= 30 * 86400, "starts too late");
    need(c.wl <= 2, "whitelist mode");
    need(c.mode <= 2, "presale mode");
    need(c.dee <= 1, "early-end flag");
    need(c.unsold <= 1, "unsold action");
    need(!c.regs.is_empty() && c.regs.len() <= 5, "registry count");
    let mut sup = 0u128;
    for r in &c.regs {
        need(r.max >= r.min, "buyer min above max");
        need(r.max > 0, "buyer max zero");
        need(r.max <= c.max, "buyer max above presale max");
        need(r.supply > 0, "registry supply zero");
        need(r.bps <= 5000, "deposit fee above 50%");
        sup += r.supply as u128;
    }
    need(sup <= u64::MAX as u128, "supply overflow");
    need(c.regs.len() <= 1 || c.wl != 0, "several registries without whitelist");
    let none = c.imm_bps == 0 && c.lock == 0 && c.vest == 0 && c.imm_ts == 0;
    if !none {
        let tot = c.lock as u128 + c.vest as u128;
        need(tot < 3650 * 86400, "lock and vest too long");
        need(c.imm_bps <= 10_000, "release share above 100%");
        if c.imm_bps == 10_000 {
            need(c.lock == 0 && c.vest == 0, "all immediate with lock or vest");
            need(c.imm_ts == 0 || c.imm_ts == c.end, "release time");
        } else {
            need(c.lock > 0 || c.vest > 0, "neither immediate nor vested");
            let ve = c.end as u128 + tot;
            need(ve <= u64::MAX as u128, "vesting end overflow");
            if c.imm_ts > 0 {
                if c.imm_bps == 0 {
                    need(c.imm_ts == c.end, "release time without release");
                } else {
                    need(c.imm_ts >= c.end, "release before end");
                    need(c.imm_ts as u128 <= ve, "release after vesting");
                }
            }
        }
    }
    if c.wl == 1 || c.wl == 2 {
        for r in &c.regs {
            need(r.max == c.max, "whitelisted buyer max must be presale max");
            match (c.mode, q) {
                (0, Some(q)) => {
                    let m = q.div_ceil(1u128 << 64);
                    need(r.min as u128 == m, "whitelisted buyer min must be one token");
                }
                (0, None) => {}
                _ => need(r.min == 1, "whitelisted buyer min must be 1"),
            }
        }
    }
    if c.mode == 0 {
        match q {
            None => need(false, "price parameters missing"),
            Some(q) => {
                for r in &c.regs {
                    for a in [r.min, r.max] {
                        let b = bought(q, a);
                        need(b > 0, "cap buys no token");
                        need(b <= u64::MAX as u128, "cap buys too many tokens");
                    }
                }
                need(bought(q, c.max) <= sup, "supply does not cover cap");
                need(bought(q, c.max) > bought(q, c.min), "no gap between caps");
            }
        }
    }
    v
}

// ---------------------------------------------------------------- view and prediction

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Closed,
    Prg(Prg),
    Tok(Tok),
    Mint(u64),
    Hook(u64),
    Same,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub body: Body,
    /// explicit lamport change (closing, native transfers)
    pub lam: i128,
    /// extra tags for a mismatch on this account
    pub tags: Tags,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub what: String,
    pub tags: Tags,
}

/// What one instruction did according to the model (used by history checks and statistics)
#[derive(Clone, Debug, Default)]
pub struct Effect {
    pub kind: &'static str,
    pub presale: Option<Pubkey>,
    pub escrow: Option<Pubkey>,
    pub who: Option<Pubkey>,
    pub prog: u8,
    pub t22: bool,
    pub feemint: bool,
    pub hookmint: bool,
    pub memo: bool,
    pub amount: u64,
    pub mode: u8,
    /// the deposit asked for more than the quota
    pub capped: bool,
    /// the payout was directed back to the vault it came from
    pub to_self: bool,
    /// the escrow's record at the moment it was closed
    pub closing: Option<EState>,
}

pub struct Prediction {
    pub conds: Vec<Cond>,
    pub unspec: bool,
    pub ov: BTreeMap<Pubkey, Exp>,
    /// created account -> who pays the rent
    pub created: Vec<(Pubkey, Pubkey)>,
    /// per instruction: Some(expected events) or None when unspecified
    pub events: Vec<Option<Vec<Ev>>>,
    pub effects: Vec<Effect>,
    /// index of the instruction expected to fail
    pub fails_at: Option<usize>,
}

pub struct Cx<'a> {
    pub w: &'a World,
    pub b: &'a Bank,
    pub roots: &'a BTreeMap<[u8; 32], Vec<[u8; 32]>>,
    pub p: Prediction,
    signers: Vec<Pubkey>,
    cur: Effect,
    ev: Option<Vec<Ev>>,
}

type R = Option<()>;

/// creator payouts of a pro-rata sale are also what C10 bounds
fn pro(p: &PState) -> Tags {
    if p.mode == 1 {
        t(&[10])
    } else {
        0
    }
}

fn opt(b: bool) -> R {
    if b {
        Some(())
    } else {
        None
    }
}

impl<'a> Cx<'a> {
    pub fn now(&self) -> u64 {
        self.b.ts as u64
    }
    fn acct(&self, k: &Pubkey) -> Option<&Acct> {
        self.b.get(k)
    }
    fn prg(&self, k: &Pubkey) -> Option<Prg> {
        if let Some(e) = self.p.ov.get(k) {
            match &e.body {
                Body::Prg(p) => return Some(p.clone()),
                Body::Closed => return None,
                Body::Same => {}
                _ => return None,
            }
        }
        let a = self.acct(k)?;
        if a.owner != PROGRAM {
            return None;
        }
        decode(&a.data)
    }
    fn presale(&self, k: &Pubkey) -> Option<PState> {
        match self.prg(k)? {
            Prg::Presale(p) => Some(*p),
            _ => None,
        }
    }
    fn escrow(&self, k: &Pubkey) -> Option<EState> {
        match self.prg(k)? {
            Prg::Escrow(p) => Some(p),
            _ => None,
        }
    }
    fn tok(&self, k: &Pubkey) -> Option<Tok> {
        match self.p.ov.get(k).map(|e| &e.body) {
            Some(Body::Tok(t)) => return Some(t.clone()),
            Some(Body::Same) | None => {}
            _ => return None,
        }
        tok_view(self.acct(k)?)
    }
    fn mint(&self, k: &Pubkey) -> Option<MintView> {
        let mut m = mint_view(self.acct(k)?)?;
        if let Some(Body::Mint(s)) = self.p.ov.get(k).map(|e| &e.body) {
            m.supply = *s;
        }
        Some(m)
    }
    fn set(&mut self, k: Pubkey, body: Body) {
        self.set_t(k, body, 0)
    }
    fn set_t(&mut self, k: Pubkey, body: Body, tags: Tags) {
        let e = self.p.ov.entry(k).or_insert(Exp { body: Body::Same, lam: 0, tags: 0 });
        e.body = body;
        e.tags |= tags;
    }
    fn lam(&mut self, k: Pubkey, d: i128) {
        self.p.ov.entry(k).or_insert(Exp { body: Body::Same, lam: 0, tags: 0 }).lam += d;
    }
    fn need(&mut self, ok: bool, tags: Tags, what: &str) -> bool {
        if !ok {
            let tags = tags | if is_record(self.cur.kind) { t(&[26]) } else { 0 };
            self.p.conds.push(Cond { what: what.to_string(), tags });
        }
        ok
    }
    fn signed(&self, k: &Pubkey) -> bool {
        self.signers.contains(k)
    }
    fn event(&mut self, e: Ev) {
        if let Some(v) = &mut self.ev {
            v.push(e)
        }
    }
    /// a program account is created at `k` (must be `want`), rent paid by `payer`
    fn create(&mut self, k: Pubkey, want: Pubkey, payer: Pubkey, tags: Tags) -> bool {
        let mut ok = self.need(k == want, t(&[14]) | tags, "created account is not the derived address");
        let free = match self.p.ov.get(&k).map(|e| &e.body) {
            Some(Body::Closed) => true,
            Some(Body::Same) | None => {
                self.acct(&k).map(|a| a.owner == system_program::ID && a.data.is_empty()).unwrap_or(true)
            }
            _ => false,
        };
        ok &= self.need(free, tags, "account already exists");
        ok &= self.need(self.signed(&payer), t(&[13, 26]), "rent payer did not sign");
        if ok {
            self.p.created.push((k, payer));
        }
        ok
    }
    fn close(&mut self, k: Pubkey, to: Pubkey) {
        let l = self.acct(&k).map(|a| a.lamports).unwrap_or(0) as i128;
        let l = l + self.p.ov.get(&k).map(|e| e.lam).unwrap_or(0);
        self.set(k, Body::Closed);
        if to == k {
            self.need(false, t(&[18]), "closing into itself");
            return;
        }
        self.lam(to, l);
    }

    /// token movement; `net_in` is Some when the destination must receive exactly that much
    #[allow(clippy::too_many_arguments)]
    fn transfer(
        &mut self,
        mint_k: Pubkey,
        src_k: Pubkey,
        dst_k: Pubkey,
        authority: Pubkey,
        amount: u64,
        tp: Pubkey,
        hook: HookArg,
        quote: bool,
        tags: Tags,
    ) -> R {
        let Some(m) = self.mint(&mint_k) else {
            self.need(false, t(&[14]), "not a mint");
            return None;
        };
        let (Some(mut s), Some(mut d)) = (self.tok(&src_k), self.tok(&dst_k)) else {
            self.need(false, t(&[14]), "not a token account");
            return None;
        };
        self.cur.t22 |= m.program == spl_token_2022::ID;
        self.cur.feemint |= m.fee.is_some();
        self.cur.hookmint |= m.hook.is_some();
        self.cur.memo |= d.memo;
        self.need(tp == m.program, t(&[14, 22]), "wrong token program");
        self.need(s.program == m.program && d.program == m.program, t(&[14]), "token account of another program");
        self.need(s.mint == mint_k && d.mint == mint_k, t(&[14]), "token account of another mint");
        self.need(s.owner == authority, t(&[13]), "source not owned by the authority");
        self.need(!s.frozen && !d.frozen, t(&[22]), "frozen token account");
        self.need(s.amount >= amount, t(&[6, 1, 2]), "insufficient tokens");
        let mi = self.w.mint_index(&mint_k);
        let Some(hook) = plain(hook, quote) else {
            self.p.unspec = true;
            return None;
        };
        if src_k == dst_k {
            let natural = match (m.hook, hook) {
                (None, HookArg::None) => true,
                (Some(_), HookArg::Mint { m: hm, quote: hq }) => Some(hm) == mi && hq == quote,
                _ => false,
            };
            if !natural {
                self.p.unspec = true;
                return None;
            }
        }
        match (m.hook, hook) {
            (None, HookArg::None) => {}
            (Some(_), HookArg::Mint { m: hm, quote: hq }) => {
                self.need(Some(hm) == mi && hq == quote, t(&[22]), "wrong transfer-hook accounts");
                if let Some(mi) = mi {
                    let hc = self.w.key(K::HookC(mi));
                    let st = self.acct(&hc).map(|a| (u64::from_le_bytes(a.data[..8].try_into().unwrap()), a.data[8]));
                    let n = match self.p.ov.get(&hc).map(|e| &e.body) {
                        Some(Body::Hook(n)) => *n,
                        _ => st.map(|x| x.0).unwrap_or(0),
                    };
                    let fail = st.map(|x| x.1 == 1).unwrap_or(true);
                    if src_k != dst_k {
                        self.need(!fail, t(&[22]), "transfer hook fails");
                        self.set_t(hc, Body::Hook(n + 1), t(&[22]));
                    }
                }
            }
            _ => {
                self.need(false, t(&[22]), "transfer-hook accounts missing or superfluous");
            }
        }
        // a vault paid out of a vault: the vaults' balances alone do not tell what was paid
        self.cur.to_self |= s.owner == d.owner;
        if src_k == dst_k {
            // the token programs treat this as a no-op
            return opt(self.p.conds.is_empty());
        }
        opt(self.p.conds.is_empty())?;
        let fee = m.fee_on(amount, self.b.epoch);
        s.amount -= amount;
        let Some(na) = d.amount.checked_add(amount - fee) else {
            self.p.unspec = true;
            return None;
        };
        d.amount = na;
        d.withheld += fee;
        let tg = tags | if m.program == spl_token_2022::ID { t(&[22]) } else { 0 };
        if s.native.is_some() {
            self.lam(src_k, -(amount as i128));
            self.lam(dst_k, amount as i128);
        }
        self.set_t(src_k, Body::Tok(s), tg);
        self.set_t(dst_k, Body::Tok(d), tg);
        Some(())
    }

    fn net(&self, mint: &Pubkey, gross: u64) -> u64 {
        self.mint(mint).map(|m| gross - m.fee_on(gross, self.b.epoch)).unwrap_or(gross)
    }

    /// nothing is to be moved: unusual token accounts are neither required nor forbidden
    fn no_transfer(&mut self, tok: Pubkey, mint: Pubkey, tp: Pubkey, hook: HookArg, quote: bool) -> R {
        let m = self.mint(&mint);
        let hook = plain(hook, quote).unwrap_or(hook);
        let natural = match (&m, self.w.mint_index(&mint)) {
            (Some(mv), Some(mi)) => {
                let h = if mv.hook.is_some() { HookArg::Mint { m: mi, quote } } else { HookArg::None };
                h == hook
                    && tp == mv.program
                    && self.tok(&tok).map(|x| x.mint == mint && x.program == mv.program).unwrap_or(false)
            }
            _ => false,
        };
        if !natural {
            self.p.unspec = true;
            return None;
        }
        Some(())
    }

    fn memo_slot(&mut self, k: Pubkey) {
        self.need(k == spl_memo::ID, t(&[14, 22]), "not the memo program");
    }
    fn auth_slot(&mut self, k: Pubkey) {
        let a = self.w.key(K::Auth);
        self.need(k == a, t(&[14]), "not the vault authority");
    }

    pub fn ix(&mut self, s: &IxSpec) -> R {
        let a: Vec<Pubkey> = s.acc.iter().map(|(k, _)| self.w.key(*k)).collect();
        let now = self.now();
        let sys = match &s.op {
            Op::Args { .. } | Op::MrCreate { .. } | Op::Esc | Op::EscOp { .. } | Op::EscMr { .. } | Op::OpCreate | Op::MetaCreate(_) | Op::Init(_) => {
                s.acc.iter().rposition(|_| true)
            }
            _ => None,
        };
        if let Some(i) = sys {
            self.need(a[i] == solana_program::system_program::ID, t(&[14]), "not the system program");
        }
        match &s.op {
            Op::Args { presale, q, dw } => {
                let pk = self.w.key(*presale);
                let q: u128 = q.parse().unwrap();
                let want = self.w.pda_args(&pk);
                self.create(a[0], want, a[2], t(&[14, 20]));
                self.need(q > 0, t(&[20]), "zero price");
                self.need(*dw <= 1, t(&[20]), "bad withdraw flag");
                opt(self.p.conds.is_empty())?;
                self.set(a[0], Body::Prg(Prg::Args(ArgsState { dw: *dw, q, owner: a[1], presale: pk })));
                self.event(
                    Ev::new("EvtFixedPricePresaleArgsCreate").k("presale", pk).raw("q_price", q.to_le_bytes().to_vec()),
                );
                Some(())
            }
            Op::CloseArgs => {
                let Some(Prg::Args(g)) = self.prg(&a[0]) else {
                    self.need(false, t(&[14, 13]), "not price parameters");
                    return None;
                };
                self.need(g.owner == a[1], t(&[13]), "not the owner of the price parameters");
                self.need(self.signed(&a[1]), t(&[13]), "owner did not sign");
                opt(self.p.conds.is_empty())?;
                self.close(a[0], a[1]);
                self.event(
                    Ev::new("EvtFixedPricePresaleArgsClose")
                        .k("presale", g.presale)
                        .k("owner", a[1])
                        .k("fixed_price_presale_args", a[0]),
                );
                Some(())
            }
            Op::Init(c) => self.init(s, c, &a),
            Op::MrCreate { root, version } => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[14, 15]), "not a presale");
                    return None;
                };
                let want = self.w.pda_mr(&a[0], *version);
                self.create(a[1], want, a[2], t(&[15, 14]));
                self.need(p.owner == a[2] && self.signed(&a[2]), t(&[13, 15]), "not the creator");
                let pr = progress(&p, now);
                self.need(pr == NOT_STARTED || pr == ONGOING, t(&[15, 7]), "sale has ended");
                self.need(p.wl == 1, t(&[15]), "not a merkle sale");
                opt(self.p.conds.is_empty())?;
                let root = unhex(root);
                self.set(a[1], Body::Prg(Prg::Mr(MrState { root, presale: a[0], version: *version })));
                self.event(
                    Ev::new("EvtMerkleRootConfigCreate")
                        .k("owner", a[2])
                        .k("config", a[1])
                        .k("presale", a[0])
                        .u("version", *version)
                        .raw("root", root.to_vec()),
                );
                Some(())
            }
            Op::MrClose => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[13, 14]), "not a presale");
                    return None;
                };
                let Some(Prg::Mr(m)) = self.prg(&a[1]) else {
                    self.need(false, t(&[14, 15]), "not a whitelist root");
                    return None;
                };
                self.need(m.presale == a[0], t(&[14, 15, 13]), "root of another presale");
                self.need(p.owner == a[3] && self.signed(&a[3]), t(&[13, 15]), "not the creator");
                self.need(progress(&p, now) != ONGOING, t(&[15, 7]), "sale is open");
                opt(self.p.conds.is_empty())?;
                self.close(a[1], a[2]);
                self.event(
                    Ev::new("EvtCloseMerkleRootConfig").k("presale", a[0]).k("merkle_root_config", a[1]).k("owner", a[3]),
                );
                opt(self.p.conds.is_empty())
            }
            Op::Esc => self.escrow_create(s, a[0], a[1], a[2], a[3], 0, None),
            Op::EscOp { reg, cap } => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[14, 16]), "not a presale");
                    return None;
                };
                self.need(p.wl == 2, t(&[16, 15]), "not an authority-whitelisted sale");
                match self.prg(&a[3]) {
                    Some(Prg::Op(o)) => {
                        self.need(o.owner == a[4], t(&[16, 13]), "operator grant of someone else");
                        self.need(o.creator == p.owner, t(&[16, 13, 14]), "operator of another creator");
                    }
                    _ => {
                        self.need(false, t(&[16, 14, 13]), "not an operator grant");
                    }
                }
                self.need(self.signed(&a[4]), t(&[16, 13]), "operator did not sign");
                self.escrow_create(s, a[0], a[1], a[2], a[5], *reg, Some(*cap))
            }
            Op::EscMr { reg, cap, proof } => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[14, 15]), "not a presale");
                    return None;
                };
                self.need(p.wl == 1, t(&[15, 16]), "not a merkle-whitelisted sale");
                match self.prg(&a[3]) {
                    Some(Prg::Mr(m)) => {
                        self.need(m.presale == a[0], t(&[15, 14]), "whitelist root of another presale");
                        let l = leaf(&a[2], *reg, *cap);
                        let pr: Vec<[u8; 32]> = proof.iter().map(|x| unhex(x)).collect();
                        self.need(proof_root(&pr, l) == m.root, t(&[15]), "invalid proof");
                        if let Some(list) = self.roots.get(&m.root) {
                            self.need(list.contains(&l), t(&[15]), "entry is not on the list");
                        }
                    }
                    _ => {
                        self.need(false, t(&[15, 14]), "not a whitelist root");
                    }
                }
                self.escrow_create(s, a[0], a[1], a[2], a[4], *reg, Some(*cap))
            }
            Op::OpCreate => {
                let want = self.w.pda_op(&a[2], &a[1]);
                self.create(a[0], want, a[2], t(&[16, 14]));
                opt(self.p.conds.is_empty())?;
                self.set(a[0], Body::Prg(Prg::Op(OpState { owner: a[1], creator: a[2] })));
                self.event(Ev::new("EvtOperatorCreate").k("creator", a[2]).k("operator", a[0]).k("operator_owner", a[1]));
                Some(())
            }
            Op::OpRevoke => {
                self.ev = None;
                let Some(Prg::Op(o)) = self.prg(&a[0]) else {
                    self.need(false, t(&[14, 13, 16]), "not an operator grant");
                    return None;
                };
                self.need(o.creator == a[1], t(&[13, 16]), "grant of another creator");
                self.need(self.signed(&a[1]), t(&[13, 16]), "creator did not sign");
                opt(self.p.conds.is_empty())?;
                self.close(a[0], a[1]);
                Some(())
            }
            Op::Dep(amt) => self.deposit(s, &a, *amt),
            Op::Wd(amt) => self.withdraw(s, &a, *amt),
            Op::Claim => self.claim(s, &a),
            Op::Refund => self.refund(s, &a),
            Op::Unsold => self.unsold(s, &a),
            Op::Close => {
                let (mut p, e) = self.pe(a[0], a[1], Some(a[2]))?;
                let pr = progress(&p, now);
                self.cur.prog = pr;
                let nothing = e.dep == 0 && e.fee == 0;
                match pr {
                    ONGOING => {
                        self.need(nothing, t(&[18]), "escrow still holds a deposit or fees");
                    }
                    FAILED => {
                        self.need(e.refunded == 1 || nothing, t(&[18, 9]), "refund not taken");
                    }
                    COMPLETED => {
                        let (x, y) = refund(&p, &e, pr);
                        self.need((x == 0 && y == 0) || e.refunded == 1, t(&[18, 10]), "excess refund not taken");
                        self.need(e.claimed == allocation(&p, &e), t(&[18, 3]), "allocation not fully claimed");
                    }
                    _ => {
                        self.need(false, t(&[18, 7]), "sale not started");
                    }
                }
                opt(self.p.conds.is_empty())?;
                p.escrows = p.escrows.saturating_sub(1);
                let r = &mut p.regs[e.reg as usize];
                r.escrows = r.escrows.saturating_sub(1);
                self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
                self.cur.closing = Some(e.clone());
                self.close(a[1], a[3]);
                self.event(
                    Ev::new("EvtEscrowClose").k("presale", a[0]).k("escrow", a[1]).k("owner", a[2]).k("rent_receiver", a[3]),
                );
                opt(self.p.conds.is_empty())
            }
            Op::CrWd => self.creator_withdraw(s, &a),
            Op::Fee => self.collect_fee(s, &a),
            Op::Refresh => {
                let (p, mut e) = self.pe(a[0], a[1], None)?;
                let pr = progress(&p, now);
                self.cur.prog = pr;
                opt(self.p.conds.is_empty())?;
                if pr == COMPLETED {
                    let c = claimable(&p, &e, now);
                    e.pending = c.saturating_sub(e.claimed);
                    e.refreshed = now;
                    self.set(a[1], Body::Prg(Prg::Escrow(e.clone())));
                }
                self.event(
                    Ev::new("EvtEscrowRefresh")
                        .k("presale", a[0])
                        .k("escrow", a[1])
                        .k("owner", e.owner)
                        .u("current_timestamp", now)
                        .u("pending_claim_token", e.pending),
                );
                Some(())
            }
            Op::MetaCreate(url) => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[13, 14]), "not a presale");
                    return None;
                };
                let want = self.w.pda_meta(&a[0]);
                self.need(p.owner == a[2] && self.signed(&a[2]), t(&[13]), "not the creator");
                self.create(a[1], want, a[2], t(&[14]));
                self.need(p.wl == 1 || p.wl == 2, t(&[16]), "not a whitelisted sale");
                let pr = progress(&p, now);
                self.need(pr == NOT_STARTED || pr == ONGOING, t(&[7]), "sale has ended");
                opt(self.p.conds.is_empty())?;
                self.set(a[1], Body::Prg(Prg::Meta(MetaState { presale: a[0], url: url.as_bytes().to_vec() })));
                let mut raw = (url.len() as u32).to_le_bytes().to_vec();
                raw.extend_from_slice(url.as_bytes());
                self.event(
                    Ev::new("EvtPermissionedServerMetadataCreate")
                        .k("presale", a[0])
                        .k("permissioned_server_metadata", a[1])
                        .raw("server_url", raw),
                );
                Some(())
            }
            Op::MetaClose => {
                let Some(p) = self.presale(&a[0]) else {
                    self.need(false, t(&[13, 14]), "not a presale");
                    return None;
                };
                let Some(Prg::Meta(m)) = self.prg(&a[1]) else {
                    self.need(false, t(&[14]), "not server metadata");
                    return None;
                };
                self.need(m.presale == a[0], t(&[14, 13]), "metadata of another presale");
                self.need(p.owner == a[3] && self.signed(&a[3]), t(&[13]), "not the creator");
                opt(self.p.conds.is_empty())?;
                self.close(a[1], a[2]);
                self.event(
                    Ev::new("EvtPermissionedServerMetadataClose")
                        .k("presale", a[0])
                        .k("permissioned_server_metadata", a[1]),
                );
                opt(self.p.conds.is_empty())
            }
        }
    }

    /// presale and escrow slots, with the owner's signature if needed
    fn pe(&mut self, pk: Pubkey, ek: Pubkey, owner: Option<Pubkey>) -> Option<(PState, EState)> {
        let Some(p) = self.presale(&pk) else {
            self.need(false, t(&[13, 14]), "not a presale");
            return None;
        };
        let Some(e) = self.escrow(&ek) else {
            let tg = match self.cur.kind {
                "Close" => t(&[13, 14, 18]),
                "Claim" => t(&[13, 14, 2]),
                "Wd" | "Refund" => t(&[13, 14, 1]),
                _ => t(&[13, 14]),
            };
            self.need(false, tg, "not an escrow");
            return None;
        };
        self.cur.presale = Some(pk);
        self.cur.escrow = Some(ek);
        let tg = match self.cur.kind {
            "Refresh" => t(&[14, 24, 3]),
            "Close" => t(&[14, 18, 19]),
            "Dep" => t(&[14, 19, 5]),
            "Claim" => t(&[14, 19, 2, 3]),
            _ => t(&[14, 19, 1]),
        };
        self.need(e.presale == pk, tg, "escrow of another presale");
        if let Some(o) = owner {
            self.cur.who = Some(o);
            let tg = if self.cur.kind == "Close" { t(&[13, 18]) } else { t(&[13]) };
            self.need(e.owner == o, tg, "escrow of another owner");
            let sg = self.signed(&o);
            self.need(sg, tg, "escrow owner did not sign");
        }
        if e.reg as usize >= 5 {
            return None;
        }
        Some((p, e))
    }

    fn init(&mut self, s: &IxSpec, c: &InitCfg, a: &[Pubkey]) -> R {
        let now = self.now();
        let (bm, qm) = (a[0], a[3]);
        let pk = self.w.pda_presale(&a[8], &bm, &qm);
        self.cur.presale = Some(a[1]);
        self.cur.who = Some(a[7]);
        self.auth_slot(a[2]);
        self.need(self.signed(&a[8]), t(&[13, 14]), "base key did not sign");
        let (Some(bmv), Some(qmv)) = (self.mint(&bm), self.mint(&qm)) else {
            self.need(false, t(&[14]), "not a mint");
            return None;
        };
        self.need(a[10] == bmv.program && a[11] == qmv.program, t(&[14, 22]), "wrong token program");
        self.create(a[1], pk, a[9], t(&[20, 14]));
        self.create(a[4], self.w.pda_bvault(&a[1]), a[9], t(&[14, 2]));
        self.create(a[5], self.w.pda_qvault(&a[1]), a[9], t(&[14, 1]));
        for (k, m) in [(qm, &qmv), (bm, &bmv)] {
            let mut ok = m.program == spl_token::ID || k != spl_token_2022::native_mint::ID;
            for e in &m.exts {
                use spl_token_2022::extension::ExtensionType as X;
                ok &= matches!(e, X::TransferFeeConfig | X::MetadataPointer | X::TokenMetadata | X::TransferHook);
            }
            self.need(ok, t(&[22]), "unsupported token");
        }
        let mut q = None;
        let mut dw = 0;
        if c.mode == 0 {
            if let Some(k) = s.rem.first() {
                match self.prg(&self.w.key(*k)) {
                    Some(Prg::Args(g)) => {
                        if self.need(g.presale == a[1], t(&[14, 20]), "price parameters of another presale") {
                            q = Some(g.q);
                            dw = g.dw;
                        } else {
                            return None;
                        }
                    }
                    _ => {
                        self.need(false, t(&[14, 20]), "not price parameters");
                        return None;
                    }
                }
            }
        }
        for v in cfg_violations(c, now, q) {
            self.need(false, t(&[20]), v);
        }
        if !self.p.conds.is_empty() {
            return None;
        }
        let supply: u64 = c.regs.iter().map(|r| r.supply).sum();
        let Some(gross) = bmv.gross_for(supply, self.b.epoch) else {
            self.need(false, t(&[2, 22]), "supply with transfer fee does not fit");
            return None;
        };
        let none = c.imm_bps == 0 && c.lock == 0 && c.vest == 0 && c.imm_ts == 0;
        let (vs, ve) = if none { (0, 0) } else { (c.end + c.lock, c.end + c.lock + c.vest) };
        let mut regs = vec![Reg::default(); 5];
        for (i, r) in c.regs.iter().enumerate() {
            regs[i] = Reg { supply: r.supply, min: r.min, max: r.max, bps: r.bps, ..Default::default() };
        }
        let t22 = |p: &Pubkey| (*p == spl_token_2022::ID) as u8;
        let p = PState {
            owner: a[7],
            quote_mint: qm,
            base_mint: bm,
            bvault: a[4],
            qvault: a[5],
            base: a[8],
            mode: c.mode,
            wl: c.wl,
            max: c.max,
            min: c.min,
            start: c.start.max(now),
            end: c.end,
            supply,
            created: now,
            lock: c.lock,
            vest: c.vest,
            imm_ts: c.imm_ts,
            vest_start: vs,
            vest_end: ve,
            bflag: t22(&a[10]),
            qflag: t22(&a[11]),
            nreg: c.regs.len() as u8,
            unsold_action: c.unsold,
            imm_bps: c.imm_bps,
            q: q.unwrap_or(0),
            dw,
            dee: if c.mode == 1 { 0 } else { c.dee },
            regs,
            ..Default::default()
        };
        let auth = self.w.key(K::Auth);
        let mk = |prog: Pubkey, mint: Pubkey| Tok {
            program: prog,
            mint,
            owner: auth,
            amount: 0,
            frozen: false,
            memo: false,
            native: if mint == spl_token::native_mint::ID { Some(crate::bank::rent_min(165)) } else { None },
            withheld: 0,
        };
        // a native vault also counts lamports that were there before
        let native_extra = |k: &Pubkey, b: &Bank| b.get(k).map(|x| x.lamports).unwrap_or(0).saturating_sub(crate::bank::rent_min(165));
        let mut bt = mk(a[10], bm);
        let mut qt = mk(a[11], qm);
        if bt.native.is_some() {
            bt.amount = native_extra(&a[4], self.b);
        }
        if qt.native.is_some() {
            qt.amount = native_extra(&a[5], self.b);
        }
        self.set_t(a[4], Body::Tok(bt), t(&[2, 20]));
        self.set_t(a[5], Body::Tok(qt), t(&[14, 20]));
        self.set(a[1], Body::Prg(Prg::Presale(Box::new(p))));
        self.cur.amount = supply;
        let payer = a[9];
        self.transfer(bm, a[6], a[4], payer, gross, a[10], s.hook, false, t(&[2, 20]))?;
        let mut regs = (c.regs.len() as u32).to_le_bytes().to_vec();
        for r in &c.regs {
            for v in [r.min, r.max, r.supply] {
                regs.extend_from_slice(&v.to_le_bytes());
            }
            regs.extend_from_slice(&r.bps.to_le_bytes());
            regs.extend_from_slice(&[0; 32]);
        }
        self.event(
            Ev::new("EvtPresaleVaultCreate")
                .k("base_mint", bm)
                .k("quote_mint", qm)
                .raw("presale_registries", regs)
                .u("lock_duration", c.lock)
                .u("vest_duration", c.vest)
                .b("whitelist_mode", c.wl)
                .b("presale_mode", c.mode)
                .u_or("presale_start_time", c.start, c.start.max(now))
                .u("presale_end_time", c.end)
                .u("presale_maximum_cap", c.max)
                .u("presale_minimum_cap", c.min),
        );
        Some(())
    }

    #[allow(clippy::too_many_arguments)]
    fn escrow_create(
        &mut self,
        s: &IxSpec,
        pk: Pubkey,
        ek: Pubkey,
        owner: Pubkey,
        payer: Pubkey,
        reg: u8,
        cap: Option<u64>,
    ) -> R {
        let now = self.now();
        let Some(mut p) = self.presale(&pk) else {
            self.need(false, t(&[14, 18]), "not a presale");
            return None;
        };
        self.cur.presale = Some(pk);
        self.cur.escrow = Some(ek);
        self.cur.who = Some(owner);
        if s.op == Op::Esc {
            self.need(p.wl == 0, t(&[15, 16]), "whitelisted sale");
        }
        let want = self.w.pda_escrow(&pk, &owner, reg);
        self.create(ek, want, payer, t(&[18]));
        self.cur.prog = progress(&p, now);
        let tg = match s.op {
            Op::EscMr { .. } => t(&[7, 15]),
            Op::EscOp { .. } => t(&[7, 16]),
            _ => t(&[7]),
        };
        self.need(progress(&p, now) == ONGOING, tg, "sale not open");
        if !self.need(reg < p.nreg, t(&[18, 15, 16, 5]), "no such registry") {
            return None;
        }
        let r = &p.regs[reg as usize];
        let c = cap.unwrap_or(r.max);
        let (rmin, rmax) = (r.min, r.max);
        if let Some(c) = cap {
            let tg = match s.op {
                Op::EscMr { .. } => t(&[5, 15]),
                _ => t(&[5, 16]),
            };
            self.need(c > 0 && c >= rmin && c <= rmax, tg, "personal cap outside of the registry range");
        }
        opt(self.p.conds.is_empty())?;
        p.escrows += 1;
        p.regs[reg as usize].escrows += 1;
        let n = p.escrows;
        let wl = p.wl;
        self.set(
            ek,
            Body::Prg(Prg::Escrow(EState {
                presale: pk,
                owner,
                reg,
                cap: c,
                created: now,
                refreshed: now,
                ..Default::default()
            })),
        );
        self.set(pk, Body::Prg(Prg::Presale(Box::new(p))));
        self.event(
            Ev::new("EvtEscrowCreate").k("presale", pk).k("owner", owner).b("whitelist_mode", wl).u("total_escrow_count", n),
        );
        Some(())
    }

    fn deposit(&mut self, s: &IxSpec, a: &[Pubkey], req: u64) -> R {
        let now = self.now();
        let (mut p, mut e) = self.pe(a[0], a[3], None)?;
        self.need(p.qvault == a[1], t(&[14, 1]), "not the presale's quote vault");
        self.need(p.quote_mint == a[2], t(&[14]), "not the presale's quote mint");
        let sg = self.signed(&a[5]);
        self.need(sg, t(&[13]), "payer did not sign");
        self.cur.who = Some(a[5]);
        self.cur.prog = progress(&p, now);
        let full = if p.mode != 1 && p.dee == 0 && p.dep >= p.max { t(&[8]) } else { 0 };
        self.need(progress(&p, now) == ONGOING, t(&[7]) | full, "sale not open");
        let qt = quota(&p, &e);
        let mut amt = req.min(qt);
        self.cur.capped = req > qt;
        self.cur.mode = p.mode;
        if req > 0 {
            self.need(amt > 0, t(&[5]), "no quota left");
        } else {
            self.need(false, t(&[6]), "zero deposit");
        }
        if amt > 0 && p.mode == 0 {
            amt = whole(p.q, amt);
            self.need(amt > 0, t(&[6, 5]), "deposit below the price of one token");
        }
        opt(self.p.conds.is_empty())?;
        let ri = e.reg as usize;
        let Some(fee) = dep_fee(amt, p.regs[ri].bps) else {
            self.need(false, t(&[6]), "amount too large");
            return None;
        };
        let nd = e.dep + amt;
        self.need(
            nd >= p.regs[ri].min && nd <= p.regs[ri].max,
            t(&[5]),
            "total deposit outside of the buyer range",
        );
        let Some(m) = self.mint(&a[2]) else {
            self.need(false, t(&[14]), "not a mint");
            return None;
        };
        let Some(gross) = m.gross_for(amt + fee, self.b.epoch) else {
            self.need(false, t(&[6, 22]), "transfer fee makes the amount too large");
            return None;
        };
        opt(self.p.conds.is_empty())?;
        e.dep = nd;
        e.fee += fee;
        p.dep += amt;
        p.fee += fee;
        p.regs[ri].dep += amt;
        p.regs[ri].fee += fee;
        if p.mode != 1 && p.dee == 0 && p.dep >= p.max {
            let d = p.imm_ts.saturating_sub(p.end);
            p.end = now;
            p.vest_start = p.end + p.lock;
            p.vest_end = p.vest_start + p.vest;
            p.imm_ts = p.end + d;
        }
        self.cur.amount = amt;
        let ev = Ev::new("EvtDeposit")
            .k("presale", a[0])
            .k("escrow", a[3])
            .u("deposit_amount", amt)
            .u("escrow_total_deposit_amount", e.dep)
            .u("presale_total_deposit_amount", p.dep)
            .k("owner", a[5])
            .u("deposit_fee", fee);
        self.set(a[3], Body::Prg(Prg::Escrow(e)));
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        self.transfer(a[2], a[4], a[1], a[5], gross, a[6], s.hook, true, t(&[6, 1]))?;
        self.event(ev);
        Some(())
    }

    fn payout_slots(&mut self, p: &PState, a: &[Pubkey], base: bool) {
        if base {
            self.need(p.bvault == a[1], t(&[14, 2]), "not the presale's base vault");
            self.need(p.base_mint == a[2], t(&[14]), "not the presale's base mint");
        } else {
            self.need(p.qvault == a[1], t(&[14, 1]), "not the presale's quote vault");
            self.need(p.quote_mint == a[2], t(&[14]), "not the presale's quote mint");
        }
        self.auth_slot(a[3]);
    }

    fn withdraw(&mut self, s: &IxSpec, a: &[Pubkey], req: u64) -> R {
        let now = self.now();
        let (mut p, mut e) = self.pe(a[0], a[4], Some(a[6]))?;
        self.payout_slots(&p, a, false);
        self.memo_slot(a[8]);
        self.cur.prog = progress(&p, now);
        self.need(progress(&p, now) == ONGOING, t(&[7, 17]), "sale not open");
        self.need(req > 0, t(&[17]), "zero withdrawal");
        self.need(e.dep >= req, t(&[17, 1]), "more than deposited");
        self.need(p.mode == 1 || (p.mode == 0 && p.dw == 0), t(&[17]), "withdrawals not allowed");
        opt(self.p.conds.is_empty())?;
        let amt = if p.mode == 0 && req != e.dep { whole(p.q, req) } else { req };
        self.need(amt > 0, t(&[17]), "below the price of one token");
        let left = e.dep - amt;
        let ri = e.reg as usize;
        self.need(left == 0 || left >= p.regs[ri].min, t(&[17, 5]), "remaining deposit below the buyer minimum");
        opt(self.p.conds.is_empty())?;
        e.dep = left;
        p.dep -= amt;
        p.regs[ri].dep -= amt;
        self.cur.amount = amt;
        let ev = Ev::new("EvtWithdraw")
            .k("presale", a[0])
            .k("escrow", a[4])
            .u("withdraw_amount", self.net(&a[2], amt))
            .u("escrow_total_deposit_amount", e.dep)
            .u("presale_total_deposit_amount", p.dep)
            .k("owner", a[6]);
        self.set(a[4], Body::Prg(Prg::Escrow(e)));
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        self.transfer(a[2], a[1], a[5], a[3], amt, a[7], s.hook, true, t(&[17, 1]))?;
        self.event(ev);
        Some(())
    }

    fn claim(&mut self, s: &IxSpec, a: &[Pubkey]) -> R {
        let now = self.now();
        let (mut p, mut e) = self.pe(a[0], a[4], Some(a[6]))?;
        self.payout_slots(&p, a, true);
        self.memo_slot(a[8]);
        self.cur.prog = progress(&p, now);
        self.need(
            progress(&p, now) == COMPLETED,
            t(&[7, 3]) | if progress(&p, now) == FAILED { t(&[9, 2]) } else { 0 },
            "sale not completed",
        );
        opt(self.p.conds.is_empty())?;
        let amt = claimable(&p, &e, now).saturating_sub(e.claimed);
        e.pending = 0;
        e.claimed += amt;
        e.refreshed = now;
        let ri = e.reg as usize;
        p.claimed += amt;
        p.regs[ri].claimed += amt;
        self.cur.amount = amt;
        let ev = Ev::new("EvtClaim")
            .k("presale", a[0])
            .k("escrow", a[4])
            .u("claim_amount", self.net(&a[2], amt))
            .u("escrow_total_claim_amount", e.claimed)
            .u("presale_total_claim_amount", p.claimed)
            .k("owner", a[6]);
        self.set(a[4], Body::Prg(Prg::Escrow(e)));
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        if amt > 0 {
            self.transfer(a[2], a[1], a[5], a[3], amt, a[7], s.hook, false, t(&[3, 2, 4]))?;
        } else {
            self.no_transfer(a[5], a[2], a[7], s.hook, false)?;
        }
        self.event(ev);
        Some(())
    }

    fn refund(&mut self, s: &IxSpec, a: &[Pubkey]) -> R {
        let now = self.now();
        let (mut p, mut e) = self.pe(a[0], a[4], Some(a[6]))?;
        self.payout_slots(&p, a, false);
        self.memo_slot(a[8]);
        let pr = progress(&p, now);
        self.cur.prog = pr;
        self.need(
            pr == FAILED || (pr == COMPLETED && p.mode == 1),
            t(&[7]) | if pr == COMPLETED { t(&[10, 1]) } else { t(&[1]) },
            "no refund in this state",
        );
        self.need(e.refunded == 0, if pr == FAILED { t(&[9, 1]) } else { t(&[10, 1]) }, "refund already taken");
        opt(self.p.conds.is_empty())?;
        let (x, y) = refund(&p, &e, pr);
        let amt = x + y;
        e.refunded = 1;
        let ri = e.reg as usize;
        p.refunded += amt;
        p.regs[ri].refunded += amt;
        self.cur.amount = amt;
        let ev = Ev::new("EvtWithdrawRemainingQuote")
            .k("presale", a[0])
            .k("escrow", a[4])
            .k("owner", a[6])
            .u("amount_refunded", self.net(&a[2], amt))
            .u("presale_total_refunded_quote_token", p.refunded);
        self.set(a[4], Body::Prg(Prg::Escrow(e)));
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        let tg = if pr == FAILED { t(&[9, 1]) } else { t(&[10, 1]) };
        if amt > 0 {
            self.transfer(a[2], a[1], a[5], a[3], amt, a[7], s.hook, true, tg)?;
        } else {
            self.no_transfer(a[5], a[2], a[7], s.hook, true)?;
        }
        self.event(ev);
        Some(())
    }

    fn unsold(&mut self, s: &IxSpec, a: &[Pubkey]) -> R {
        let now = self.now();
        let Some(mut p) = self.presale(&a[0]) else {
            self.need(false, t(&[13, 14]), "not a presale");
            return None;
        };
        self.cur.presale = Some(a[0]);
        self.payout_slots(&p, a, true);
        self.memo_slot(a[6]);
        let pr = progress(&p, now);
        self.cur.prog = pr;
        let Some(m) = self.mint(&p.base_mint) else { return None };
        let want = self.w.ata(&p.owner, &p.base_mint, &m.program);
        self.need(a[4] == want, t(&[12, 14]), "not the creator's associated token account");
        let valid = self.tok(&a[4]).map(|x| x.owner == p.owner && x.mint == p.base_mint).unwrap_or(false);
        self.need(valid, t(&[12]), "creator account missing");
        self.need(a[5] == m.program, t(&[14, 22]), "wrong token program");
        self.need(pr == COMPLETED, t(&[7, 12]) | if pr == FAILED { t(&[9, 2]) } else { 0 }, "sale not completed");
        self.need(p.unsold_done == 0, t(&[12, 2]), "already done");
        let sold = total_sold(&p);
        let n = p.supply.saturating_sub(sold);
        self.need(n > 0, t(&[12]), "nothing unsold");
        opt(self.p.conds.is_empty())?;
        p.unsold_done = 1;
        let burn = p.unsold_action == 1;
        self.cur.amount = n;
        let bmk = p.base_mint;
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        if burn {
            let mut v = self.tok(&a[1])?;
            self.need(v.native.is_none(), 0, "native tokens cannot be burned");
            self.need(!v.frozen, t(&[22]), "frozen vault");
            self.need(v.amount >= n, t(&[2]), "insufficient tokens");
            if s.hook != HookArg::None && m.hook.is_none() {
                self.p.unspec = true; // slices are not looked at when burning
            }
            opt(self.p.conds.is_empty())?;
            self.cur.t22 |= m.program == spl_token_2022::ID;
            v.amount -= n;
            self.set_t(a[1], Body::Tok(v), t(&[12, 2]));
            self.set_t(bmk, Body::Mint(m.supply - n), t(&[12]));
        } else {
            self.transfer(bmk, a[1], a[4], a[3], n, a[5], s.hook, false, t(&[12, 2]))?;
        }
        self.event(
            Ev::new("EvtPerformUnsoldBaseTokenAction")
                .k("presale", a[0])
                .u("total_token_unsold", n)
                .b("unsold_base_token_action", burn as u8),
        );
        Some(())
    }

    fn creator_withdraw(&mut self, s: &IxSpec, a: &[Pubkey]) -> R {
        let now = self.now();
        let Some(mut p) = self.presale(&a[0]) else {
            self.need(false, t(&[13, 14]), "not a presale");
            return None;
        };
        self.cur.presale = Some(a[0]);
        self.cur.who = Some(a[3]);
        self.auth_slot(a[1]);
        self.memo_slot(a[5]);
        self.need(p.owner == a[3] && self.signed(&a[3]), t(&[13, 11]), "not the creator");
        let pr = progress(&p, now);
        self.cur.prog = pr;
        self.need(pr == COMPLETED || pr == FAILED, t(&[7, 11]), "sale has not ended");
        self.need(p.creator_withdrawn == 0, t(&[11, 1]) | pro(&p) | if pr == FAILED { t(&[9, 2]) } else { 0 }, "already withdrawn");
        let rem: Vec<Pubkey> = s.rem.iter().map(|k| self.w.key(*k)).collect();
        if rem.len() < 2 {
            self.need(false, t(&[14]), "vault accounts missing");
            return None;
        }
        let (vault, mint, amt, quote) =
            if pr == COMPLETED { (p.qvault, p.quote_mint, p.dep.min(p.max), true) } else { (p.bvault, p.base_mint, p.supply, false) };
        let tg = if pr == FAILED { t(&[9, 11, 14, 1]) } else { t(&[11, 14, 2]) };
        self.need(rem[0] == vault, tg, "not the right vault");
        self.need(rem[1] == mint, t(&[14]), "not the right mint");
        opt(self.p.conds.is_empty())?;
        p.creator_withdrawn = 1;
        let p2 = p.clone();
        self.cur.mode = p.mode;
        self.cur.amount = amt;
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        let ev = Ev::new("EvtCreatorWithdraw")
            .k("presale", a[0])
            .u("amount", self.net(&mint, amt))
            .k("creator", a[3])
            .b("presale_progress", pr);
        let tg = if quote { t(&[11, 1]) | pro(&p2) } else { t(&[9, 2, 11]) };
        self.transfer(mint, vault, a[2], a[1], amt, a[4], s.hook, quote, tg)?;
        self.event(ev);
        Some(())
    }

    fn collect_fee(&mut self, s: &IxSpec, a: &[Pubkey]) -> R {
        let now = self.now();
        let Some(mut p) = self.presale(&a[0]) else {
            self.need(false, t(&[13, 14]), "not a presale");
            return None;
        };
        self.cur.presale = Some(a[0]);
        self.cur.who = Some(a[5]);
        self.auth_slot(a[1]);
        self.memo_slot(a[7]);
        self.need(p.qvault == a[2], t(&[14, 1]), "not the presale's quote vault");
        self.need(p.quote_mint == a[3], t(&[14]), "not the presale's quote mint");
        self.need(p.owner == a[5] && self.signed(&a[5]), t(&[13, 11]), "not the creator");
        let pr = progress(&p, now);
        self.cur.prog = pr;
        self.need(pr == COMPLETED, t(&[7, 11]) | if pr == FAILED { t(&[9, 1]) } else { 0 }, "sale not completed");
        self.need(p.fee_collected == 0, t(&[11, 1]) | pro(&p), "fees already collected");
        opt(self.p.conds.is_empty())?;
        let amt = creator_fee(&p);
        p.fee_collected = 1;
        let p2 = p.clone();
        self.cur.mode = p.mode;
        self.cur.amount = amt;
        self.set(a[0], Body::Prg(Prg::Presale(Box::new(p))));
        let ev = Ev::new("EvtCreatorCollectFee").k("presale", a[0]).k("owner", a[5]).u("total_collected_fee", self.net(&a[3], amt));
        if amt > 0 {
            self.transfer(a[3], a[2], a[4], a[1], amt, a[6], s.hook, true, t(&[11, 1]) | pro(&p2))?;
        } else {
            self.no_transfer(a[4], a[3], a[6], s.hook, true)?;
        }
        self.event(ev);
        Some(())
    }
}

pub fn predict(w: &World, b: &Bank, roots: &BTreeMap<[u8; 32], Vec<[u8; 32]>>, ixs: &[IxSpec]) -> Prediction {
    let mut signers = vec![];
    for s in ixs {
        for (k, sg) in &s.acc {
            if *sg {
                signers.push(w.key(*k));
            }
        }
    }
    let mut cx = Cx {
        w,
        b,
        roots,
        p: Prediction {
            conds: vec![],
            unspec: false,
            ov: BTreeMap::new(),
            created: vec![],
            events: vec![],
            effects: vec![],
            fails_at: None,
        },
        signers,
        cur: Effect::default(),
        ev: Some(vec![]),
    };
    for (i, s) in ixs.iter().enumerate() {
        cx.cur = Effect { kind: s.op.kind(), ..Default::default() };
        cx.ev = Some(vec![]);
        let ok = cx.ix(s).is_some();
        let ev = cx.ev.take();
        cx.p.events.push(ev);
        let cur = std::mem::take(&mut cx.cur);
        cx.p.effects.push(cur);
        if !ok || !cx.p.conds.is_empty() {
            if cx.p.conds.is_empty() && !cx.p.unspec {
                cx.p.unspec = true;
            }
            cx.p.fails_at = Some(i);
            break;
        }
    }
    cx.p
}
