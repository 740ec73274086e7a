//! The program's public binary interface as clients see it: instruction encoding, account and event decoding.
//! Written against the published layout, not by linking the program's own serialisers, so that it is an
//! independent view of what the program does.
use crate::bank::{Ix, Meta};
use crate::world::World;
use serde::{Deserialize, Serialize};
use solana_program::{hash::hashv, pubkey::Pubkey};

pub const PROGRAM: Pubkey = presale::ID;
pub const EVENT_TAG: [u8; 8] = [0xe4, 0x45, 0xa5, 0x2e, 0x51, 0xcb, 0x9a, 0x1d];

/// Symbolic account names: every address of a run is a function of the world's salt and one of these.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum K {
    W(u8),
    M(u8),
    Tok(u8, u8),  // associated token account of wallet, mint
    Tok2(u8, u8), // a second token account of wallet, mint
    P(u8),
    BV(u8),
    QV(u8),
    Base(u8),
    Auth,
    Esc(u8, u8, u8),
    Mr(u8, u64),
    Op(u8, u8),
    Meta(u8),
    Args(u8),
    EvAuth,
    Prog,
    Sys,
    TokP,
    Tok22P,
    Memo,
    HookP,
    HookV(u8),
    HookC(u8),
    Fake(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RegCfg {
    pub min: u64,
    pub max: u64,
    pub supply: u64,
    pub bps: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct InitCfg {
    pub max: u64,
    pub min: u64,
    /// absolute time
    pub start: u64,
    pub end: u64,
    pub wl: u8,
    pub mode: u8,
    pub unsold: u8,
    pub dee: u8,
    pub imm_bps: u16,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub regs: Vec<RegCfg>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Args { presale: K, q: String, dw: u8 },
    CloseArgs,
    Init(InitCfg),
    MrCreate { root: String, version: u64 },
    MrClose,
    Esc,
    EscOp { reg: u8, cap: u64 },
    EscMr { reg: u8, cap: u64, proof: Vec<String> },
    OpCreate,
    OpRevoke,
    Dep(u64),
    Wd(u64),
    Claim,
    Refund,
    Unsold,
    Close,
    CrWd,
    Fee,
    Refresh,
    MetaCreate(String),
    MetaClose,
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Args { .. } => "Args",
            Op::CloseArgs => "CloseArgs",
            Op::Init(_) => "Init",
            Op::MrCreate { .. } => "MrCreate",
            Op::MrClose => "MrClose",
            Op::Esc => "Esc",
            Op::EscOp { .. } => "EscOp",
            Op::EscMr { .. } => "EscMr",
            Op::OpCreate => "OpCreate",
            Op::OpRevoke => "OpRevoke",
            Op::Dep(_) => "Dep",
            Op::Wd(_) => "Wd",
            Op::Claim => "Claim",
            Op::Refund => "Refund",
            Op::Unsold => "Unsold",
            Op::Close => "Close",
            Op::CrWd => "CrWd",
            Op::Fee => "Fee",
            Op::Refresh => "Refresh",
            Op::MetaCreate(_) => "MetaCreate",
            Op::MetaClose => "MetaClose",
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Args { .. } => "initialize_fixed_price_presale_args",
            Op::CloseArgs => "close_fixed_price_presale_args",
            Op::Init(_) => "initialize_presale",
            Op::MrCreate { .. } => "create_merkle_root_config",
            Op::MrClose => "close_merkle_root_config",
            Op::Esc => "create_permissionless_escrow",
            Op::EscOp { .. } => "create_permissioned_escrow_with_creator",
            Op::EscMr { .. } => "create_permissioned_escrow_with_merkle_proof",
            Op::OpCreate => "create_operator",
            Op::OpRevoke => "revoke_operator",
            Op::Dep(_) => "deposit",
            Op::Wd(_) => "withdraw",
            Op::Claim => "claim",
            Op::Refund => "withdraw_remaining_quote",
            Op::Unsold => "perform_unsold_base_token_action",
            Op::Close => "close_escrow",
            Op::CrWd => "creator_withdraw",
            Op::Fee => "creator_collect_fee",
            Op::Refresh => "refresh_escrow",
            Op::MetaCreate(_) => "create_permissioned_server_metadata",
            Op::MetaClose => "close_permissioned_server_metadata",
        }
    }
    /// which account slots a client marks writable
    pub fn writable(&self, i: usize) -> bool {
        let w: &[usize] = match self {
            Op::Args { .. } => &[0, 2],
            Op::CloseArgs => &[0, 1],
            Op::Init(_) => &[1, 4, 5, 6, 9],
            Op::MrCreate { .. } => &[1, 2],
            Op::MrClose => &[1, 2],
            Op::Esc => &[0, 1, 3],
            Op::EscOp { .. } => &[0, 1, 5],
            Op::EscMr { .. } => &[0, 1, 4],
            Op::OpCreate => &[0, 2],
            Op::OpRevoke => &[0, 1],
            Op::Dep(_) => &[0, 1, 3, 4],
            Op::Wd(_) | Op::Refund | Op::Claim => &[0, 1, 4, 5],
            Op::Unsold => &[0, 1, 2, 4],
            Op::Close => &[0, 1, 3],
            Op::CrWd => &[0, 2],
            Op::Fee => &[0, 2, 4],
            Op::Refresh => &[1],
            Op::MetaCreate(_) => &[1, 2],
            Op::MetaClose => &[1, 2],
        };
        w.contains(&i)
    }
    pub fn signer_slots(&self) -> &'static [usize] {
        match self {
            Op::Args { .. } => &[2],
            Op::CloseArgs => &[1],
            Op::Init(_) => &[8, 9],
            Op::MrCreate { .. } => &[2],
            Op::MrClose => &[3],
            Op::Esc => &[3],
            Op::EscOp { .. } => &[4, 5],
            Op::EscMr { .. } => &[4],
            Op::OpCreate => &[2],
            Op::OpRevoke => &[1],
            Op::Dep(_) => &[5],
            Op::Wd(_) | Op::Refund | Op::Claim => &[6],
            Op::Unsold => &[],
            Op::Close => &[2],
            Op::CrWd => &[3],
            Op::Fee => &[5],
            Op::Refresh => &[],
            Op::MetaCreate(_) => &[2],
            Op::MetaClose => &[3],
        }
    }
    /// which slice type the instruction takes (None: depends on the outcome)
    pub fn quote_slice(&self) -> Option<bool> {
        match self {
            Op::Dep(_) | Op::Wd(_) | Op::Refund | Op::Fee => Some(true),
            Op::Init(_) | Op::Claim | Op::Unsold => Some(false),
            _ => None,
        }
    }
    pub fn slices(&self) -> bool {
        matches!(
            self,
            Op::Init(_) | Op::Dep(_) | Op::Wd(_) | Op::Claim | Op::Refund | Op::Unsold | Op::CrWd | Op::Fee
        )
    }
}

/// How the client passes transfer-hook accounts.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum HookArg {
    /// no slice
    None,
    /// proper slice for this mint; `quote` tells the slice type
    Mint { m: u8, quote: bool },
    /// a slice that claims more accounts than are there
    Long { m: u8, quote: bool },
    /// a slice of the right type without accounts
    Zero { quote: bool },
    /// the same slice twice
    Dup { m: u8, quote: bool },
    /// an empty slice before the proper one
    ZeroMint { m: u8, quote: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct IxSpec {
    pub op: Op,
    /// account per slot and whether its signature is on the transaction
    pub acc: Vec<(K, bool)>,
    /// extra accounts after the fixed ones (price parameters; vault and mint)
    pub rem: Vec<K>,
    pub hook: HookArg,
}

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    let h = hashv(&[ns.as_bytes(), b":", name.as_bytes()]).to_bytes();
    h[..8].try_into().unwrap()
}

pub fn unhex(s: &str) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..32 {
        o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl IxSpec {
    pub fn data(&self, w: &World) -> Vec<u8> {
        let mut d = disc("global", self.op.name()).to_vec();
        let u64le = |d: &mut Vec<u8>, v: u64| d.extend_from_slice(&v.to_le_bytes());
        match &self.op {
            Op::Args { presale, q, dw } => {
                d.extend_from_slice(w.key(*presale).as_ref());
                d.push(*dw);
                d.extend_from_slice(&q.parse::<u128>().unwrap().to_le_bytes());
                d.extend_from_slice(&[0; 64]);
            }
            Op::Init(c) => {
                for v in [c.max, c.min, c.start, c.end] {
                    u64le(&mut d, v);
                }
                d.extend_from_slice(&[c.wl, c.mode, c.unsold, c.dee]);
                d.extend_from_slice(&[0; 30]);
                d.extend_from_slice(&c.imm_bps.to_le_bytes());
                for v in [c.lock, c.vest, c.imm_ts] {
                    u64le(&mut d, v);
                }
                d.extend_from_slice(&[0; 24]);
                d.extend_from_slice(&[0; 32]);
                d.extend_from_slice(&(c.regs.len() as u32).to_le_bytes());
                for r in &c.regs {
                    for v in [r.min, r.max, r.supply] {
                        u64le(&mut d, v);
                    }
                    d.extend_from_slice(&r.bps.to_le_bytes());
                    d.extend_from_slice(&[0; 32]);
                }
            }
            Op::MrCreate { root, version } => {
                d.extend_from_slice(&unhex(root));
                u64le(&mut d, *version);
            }
            Op::EscOp { reg, cap } => {
                d.push(*reg);
                u64le(&mut d, *cap);
                d.extend_from_slice(&[0; 32]);
            }
            Op::EscMr { reg, cap, proof } => {
                d.extend_from_slice(&(proof.len() as u32).to_le_bytes());
                for p in proof {
                    d.extend_from_slice(&unhex(p));
                }
                d.push(*reg);
                u64le(&mut d, *cap);
                d.extend_from_slice(&[0; 32]);
            }
            Op::Dep(a) | Op::Wd(a) => u64le(&mut d, *a),
            Op::MetaCreate(s) => {
                d.extend_from_slice(&(s.len() as u32).to_le_bytes());
                d.extend_from_slice(s.as_bytes());
            }
            _ => {}
        }
        if self.op.slices() {
            match self.hook {
                HookArg::None => d.extend_from_slice(&0u32.to_le_bytes()),
                HookArg::Mint { quote, .. } => {
                    d.extend_from_slice(&1u32.to_le_bytes());
                    d.extend_from_slice(&[quote as u8, 3]);
                }
                HookArg::Zero { quote } => {
                    d.extend_from_slice(&1u32.to_le_bytes());
                    d.extend_from_slice(&[quote as u8, 0]);
                }
                HookArg::ZeroMint { quote, .. } => {
                    d.extend_from_slice(&2u32.to_le_bytes());
                    d.extend_from_slice(&[quote as u8, 0, quote as u8, 3]);
                }
                HookArg::Dup { quote, .. } => {
                    d.extend_from_slice(&2u32.to_le_bytes());
                    d.extend_from_slice(&[quote as u8, 3, quote as u8, 3]);
                }
                HookArg::Long { quote, .. } => {
                    d.extend_from_slice(&1u32.to_le_bytes());
                    d.extend_from_slice(&[quote as u8, 9]);
                }
            }
        }
        d
    }

    pub fn build(&self, w: &World) -> Ix {
        let mut metas: Vec<Meta> = self
            .acc
            .iter()
            .enumerate()
            .map(|(i, (k, s))| Meta { key: w.key(*k), signer: *s, writable: self.op.writable(i) })
            .collect();
        metas.push(Meta { key: w.key(K::EvAuth), signer: false, writable: false });
        metas.push(Meta { key: PROGRAM, signer: false, writable: false });
        for (i, k) in self.rem.iter().enumerate() {
            metas.push(Meta { key: w.key(*k), signer: false, writable: matches!(self.op, Op::CrWd) && i == 0 });
        }
        let n = match self.hook {
            HookArg::Mint { .. } | HookArg::Long { .. } | HookArg::ZeroMint { .. } => 1,
            HookArg::Dup { .. } => 2,
            _ => 0,
        };
        if let HookArg::Mint { m, .. } | HookArg::Long { m, .. } | HookArg::Dup { m, .. } | HookArg::ZeroMint { m, .. } = self.hook {
            for _ in 0..n {
            metas.push(Meta { key: w.key(K::HookV(m)), signer: false, writable: false });
            metas.push(Meta { key: w.key(K::HookP), signer: false, writable: false });
            metas.push(Meta { key: w.key(K::HookC(m)), signer: false, writable: true });
            }
        }
        Ix { program: PROGRAM, metas, data: self.data(w) }
    }
}

// ---------------------------------------------------------------- state

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Reg {
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub min: u64,
    pub max: u64,
    pub fee: u64,
    pub bps: u16,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct PState {
    pub owner: Pubkey,
    pub quote_mint: Pubkey,
    pub base_mint: Pubkey,
    pub bvault: Pubkey,
    pub qvault: Pubkey,
    pub base: Pubkey,
    pub mode: u8,
    pub wl: u8,
    pub max: u64,
    pub min: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub dep: u64,
    pub escrows: u64,
    pub created: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub vest_start: u64,
    pub vest_end: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub creator_withdrawn: u8,
    pub bflag: u8,
    pub qflag: u8,
    pub nreg: u8,
    pub unsold_action: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    pub q: u128,
    pub dw: u8,
    pub dee: u8,
    pub regs: Vec<Reg>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EState {
    pub presale: Pubkey,
    pub owner: Pubkey,
    pub dep: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub reg: u8,
    pub pending: u64,
    pub cap: u64,
    pub created: u64,
    pub fee: u64,
    pub refreshed: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MrState {
    pub root: [u8; 32],
    pub presale: Pubkey,
    pub version: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OpState {
    pub owner: Pubkey,
    pub creator: Pubkey,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ArgsState {
    pub dw: u8,
    pub q: u128,
    pub owner: Pubkey,
    pub presale: Pubkey,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MetaState {
    pub presale: Pubkey,
    pub url: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Prg {
    Presale(Box<PState>),
    Escrow(EState),
    Mr(MrState),
    Op(OpState),
    Args(ArgsState),
    Meta(MetaState),
}

pub struct Discs {
    presale: [u8; 8],
    escrow: [u8; 8],
    mr: [u8; 8],
    op: [u8; 8],
    args: [u8; 8],
    meta: [u8; 8],
}
thread_local! {
    static DISCS: Discs = Discs {
        presale: disc("account", "Presale"),
        escrow: disc("account", "Escrow"),
        mr: disc("account", "MerkleRootConfig"),
        op: disc("account", "Operator"),
        args: disc("account", "FixedPricePresaleExtraArgs"),
        meta: disc("account", "PermissionedServerMetadata"),
    };
}

fn g64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn g128(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
fn gk(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

pub fn decode(data: &[u8]) -> Option<Prg> {
    if data.len() < 8 {
        return None;
    }
    let d = &data[8..];
    let t: [u8; 8] = data[..8].try_into().unwrap();
    DISCS.with(|x| {
        if t == x.presale && d.len() >= 1264 {
            let mode = d[193];
            let nreg = d[347];
            let (q, dw, dee) = match mode {
                0 => (g128(d, 352), d[368], d[369]),
                2 => (0, 0, d[352]),
                _ => (0, 0, 0),
            };
            let mut regs = vec![];
            for i in 0..5usize {
                let b = 464 + 160 * i;
                regs.push(Reg {
                    supply: g64(d, b),
                    dep: g64(d, b + 8),
                    escrows: g64(d, b + 16),
                    claimed: g64(d, b + 24),
                    refunded: g64(d, b + 32),
                    min: g64(d, b + 40),
                    max: g64(d, b + 48),
                    fee: g64(d, b + 56),
                    bps: u16::from_le_bytes([d[b + 64], d[b + 65]]),
                });
            }
            Some(Prg::Presale(Box::new(PState {
                owner: gk(d, 0),
                quote_mint: gk(d, 32),
                base_mint: gk(d, 64),
                bvault: gk(d, 96),
                qvault: gk(d, 128),
                base: gk(d, 160),
                mode,
                wl: d[194],
                max: g64(d, 200),
                min: g64(d, 208),
                start: g64(d, 216),
                end: g64(d, 224),
                supply: g64(d, 232),
                dep: g64(d, 240),
                escrows: g64(d, 248),
                created: g64(d, 256),
                lock: g64(d, 264),
                vest: g64(d, 272),
                imm_ts: g64(d, 280),
                vest_start: g64(d, 296),
                vest_end: g64(d, 304),
                claimed: g64(d, 312),
                refunded: g64(d, 320),
                fee: g64(d, 328),
                fee_collected: d[336],
                creator_withdrawn: d[344],
                bflag: d[345],
                qflag: d[346],
                nreg,
                unsold_action: d[348],
                unsold_done: d[349],
                imm_bps: u16::from_le_bytes([d[350], d[351]]),
                q,
                dw,
                dee,
                regs,
            })))
        } else if t == x.escrow && d.len() >= 192 {
            Some(Prg::Escrow(EState {
                presale: gk(d, 0),
                owner: gk(d, 32),
                dep: g64(d, 64),
                claimed: g64(d, 72),
                refunded: d[80],
                reg: d[81],
                pending: g64(d, 88),
                cap: g64(d, 96),
                created: g64(d, 104),
                fee: g64(d, 112),
                refreshed: g64(d, 120),
            }))
        } else if t == x.mr && d.len() >= 144 {
            Some(Prg::Mr(MrState { root: d[..32].try_into().unwrap(), presale: gk(d, 40), version: g64(d, 72) }))
        } else if t == x.op && d.len() >= 128 {
            Some(Prg::Op(OpState { owner: gk(d, 0), creator: gk(d, 32) }))
        } else if t == x.args && d.len() >= 160 {
            Some(Prg::Args(ArgsState { dw: d[15], q: g128(d, 16), owner: gk(d, 32), presale: gk(d, 64) }))
        } else if t == x.meta && d.len() >= 164 {
            let n = u32::from_le_bytes(d[160..164].try_into().unwrap()) as usize;
            if d.len() < 164 + n {
                return None;
            }
            Some(Prg::Meta(MetaState { presale: gk(d, 0), url: d[164..164 + n].to_vec() }))
        } else {
            None
        }
    })
}

// ---------------------------------------------------------------- events

/// An expected event: name and its borsh fields; alternatives are allowed per field.
#[derive(Clone, Debug)]
pub struct Ev {
    pub name: &'static str,
    pub fields: Vec<(&'static str, Vec<Vec<u8>>)>,
}

impl Ev {
    pub fn new(name: &'static str) -> Self {
        Ev { name, fields: vec![] }
    }
    pub fn k(mut self, n: &'static str, k: Pubkey) -> Self {
        self.fields.push((n, vec![k.to_bytes().to_vec()]));
        self
    }
    pub fn u(mut self, n: &'static str, v: u64) -> Self {
        self.fields.push((n, vec![v.to_le_bytes().to_vec()]));
        self
    }
    pub fn u_or(mut self, n: &'static str, v: u64, w: u64) -> Self {
        self.fields.push((n, vec![v.to_le_bytes().to_vec(), w.to_le_bytes().to_vec()]));
        self
    }
    pub fn b(mut self, n: &'static str, v: u8) -> Self {
        self.fields.push((n, vec![vec![v]]));
        self
    }
    pub fn raw(mut self, n: &'static str, v: Vec<u8>) -> Self {
        self.fields.push((n, vec![v]));
        self
    }
    /// None when it matches, else what differs
    pub fn differs(&self, payload: &[u8]) -> Option<String> {
        if payload.len() < 8 || payload[..8] != disc("event", self.name) {
            return Some(format!("expected event {}, got another one", self.name));
        }
        let mut p = &payload[8..];
        for (n, alts) in &self.fields {
            let len = alts[0].len();
            if p.len() < len {
                return Some(format!("{}: too short at {}", self.name, n));
            }
            if !alts.iter().any(|a| a[..] == p[..len]) {
                return Some(format!("{}.{}: expected {} got {}", self.name, n, hex(&alts[0]), hex(&p[..len])));
            }
            p = &p[len..];
        }
        if !p.is_empty() {
            return Some(format!("{}: {} trailing bytes", self.name, p.len()));
        }
        None
    }
}
