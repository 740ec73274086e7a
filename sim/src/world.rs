//! The simulated world of one run: wallets, mints, token accounts and planned presales. Everything is derived
//! from `WorldCfg`, so a replay file only stores that and the steps.
use crate::abi::{K, PROGRAM};
use crate::bank::{rent_min, Acct, Bank, Ix, Meta};
use crate::programs::hook_program;
use serde::{Deserialize, Serialize};
use solana_program::{hash::hashv, instruction::Instruction, program_option::COption, program_pack::Pack, pubkey::Pubkey, system_program};
use spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList};
use spl_token_2022::extension::{
    default_account_state, group_member_pointer, group_pointer, interest_bearing_mint, memo_transfer, metadata_pointer, transfer_fee,
    transfer_hook, BaseStateWithExtensions, ExtensionType, StateWithExtensions,
};
use spl_transfer_hook_interface::{get_extra_account_metas_address, instruction::ExecuteInstruction};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const SPL: u8 = 0;
pub const T22: u8 = 1;
pub const T22_FEE: u8 = 2;
pub const T22_HOOK: u8 = 3;
pub const T22_FEE_HOOK: u8 = 4;
pub const T22_META: u8 = 5;
pub const T22_BAD: u8 = 6;
pub const WSOL: u8 = 7;
pub const T22_NATIVE: u8 = 8;
pub const T22_HOOK_NULL: u8 = 9;

/// mint extensions a presale must refuse, with their lengths
const BAD_EXT: [(ExtensionType, usize); 12] = [
    (ExtensionType::ConfidentialTransferMint, 65),
    (ExtensionType::ConfidentialTransferFeeConfig, 129),
    (ExtensionType::NonTransferable, 0),
    (ExtensionType::MintCloseAuthority, 32),
    (ExtensionType::DefaultAccountState, 1),
    (ExtensionType::InterestBearingConfig, 52),
    (ExtensionType::PermanentDelegate, 32),
    (ExtensionType::GroupPointer, 64),
    (ExtensionType::TokenGroup, 80),
    (ExtensionType::GroupMemberPointer, 64),
    (ExtensionType::TokenGroupMember, 72),
    (ExtensionType::ConfidentialMintBurn, 196),
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MintCfg {
    pub kind: u8,
    pub decimals: u8,
    pub bps: u16,
    pub maxfee: u64,
    pub ext: u8,
    /// tokens of wallet 0
    pub big: u64,
    /// tokens of every other wallet
    pub small: u64,
}
impl MintCfg {
    pub fn t22(&self) -> bool {
        !matches!(self.kind, SPL | WSOL)
    }
    pub fn fee(&self) -> bool {
        matches!(self.kind, T22_FEE | T22_FEE_HOOK)
    }
    pub fn hook(&self) -> bool {
        matches!(self.kind, T22_HOOK | T22_FEE_HOOK)
    }
    /// supported extensions combined with metadata
    pub fn meta_too(&self) -> bool {
        matches!(self.kind, T22_FEE | T22_HOOK | T22_FEE_HOOK) && self.ext % 5 >= 3
    }
    pub fn supported(&self) -> bool {
        !matches!(self.kind, T22_BAD | T22_NATIVE)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PSlot {
    pub base: u8,
    pub bm: u8,
    pub qm: u8,
    pub creator: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WorldCfg {
    pub salt: u64,
    pub t0: i64,
    pub wallets: u8,
    pub mints: Vec<MintCfg>,
    pub presales: Vec<PSlot>,
}

pub struct World {
    pub cfg: WorldCfg,
    cache: RefCell<BTreeMap<K, Pubkey>>,
    back: RefCell<BTreeMap<Pubkey, K>>,
    pda: RefCell<BTreeMap<(u8, [u8; 32], [u8; 32], u64), Pubkey>>,
}

pub fn to_ix(i: Instruction) -> Ix {
    Ix {
        program: i.program_id,
        metas: i.accounts.iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }).collect(),
        data: i.data,
    }
}

impl World {
    pub fn new(cfg: WorldCfg) -> Self {
        World { cfg, cache: Default::default(), back: Default::default(), pda: Default::default() }
    }

    fn derive(&self, tag: &[u8], a: u64, b: u64) -> Pubkey {
        Pubkey::new_from_array(
            hashv(&[b"psim", tag, &self.cfg.salt.to_le_bytes(), &a.to_le_bytes(), &b.to_le_bytes()]).to_bytes(),
        )
    }

    pub fn key(&self, k: K) -> Pubkey {
        if let Some(p) = self.cache.borrow().get(&k) {
            return *p;
        }
        let v = self.compute(k);
        self.cache.borrow_mut().insert(k, v);
        self.back.borrow_mut().entry(v).or_insert(k);
        v
    }

    pub fn sym(&self, p: &Pubkey) -> Option<K> {
        self.back.borrow().get(p).copied()
    }
    pub fn label(&self, p: &Pubkey) -> String {
        match self.sym(p) {
            Some(k) => format!("{k:?}"),
            None => p.to_string(),
        }
    }

    fn pda(seeds: &[&[u8]]) -> Pubkey {
        Pubkey::find_program_address(seeds, &PROGRAM).0
    }
    fn cached(&self, tag: u8, a: &Pubkey, b: &Pubkey, n: u64, f: impl FnOnce() -> Pubkey) -> Pubkey {
        let k = (tag, a.to_bytes(), b.to_bytes(), n);
        if let Some(p) = self.pda.borrow().get(&k) {
            return *p;
        }
        let v = f();
        self.pda.borrow_mut().insert(k, v);
        v
    }
    pub fn pda_presale(&self, base: &Pubkey, bm: &Pubkey, qm: &Pubkey) -> Pubkey {
        let h = hashv(&[bm.as_ref(), qm.as_ref()]).to_bytes();
        self.cached(0, base, &Pubkey::new_from_array(h), 0, || {
            Self::pda(&[b"presale", base.as_ref(), bm.as_ref(), qm.as_ref()])
        })
    }
    pub fn pda_bvault(&self, p: &Pubkey) -> Pubkey {
        self.cached(1, p, p, 0, || Self::pda(&[b"base_vault", p.as_ref()]))
    }
    pub fn pda_qvault(&self, p: &Pubkey) -> Pubkey {
        self.cached(2, p, p, 0, || Self::pda(&[b"quote_vault", p.as_ref()]))
    }
    pub fn pda_args(&self, p: &Pubkey) -> Pubkey {
        self.cached(3, p, p, 0, || Self::pda(&[b"fixed_price_param", p.as_ref()]))
    }
    pub fn pda_escrow(&self, p: &Pubkey, o: &Pubkey, r: u8) -> Pubkey {
        self.cached(4, p, o, r as u64, || Self::pda(&[b"escrow", p.as_ref(), o.as_ref(), &[r]]))
    }
    pub fn pda_mr(&self, p: &Pubkey, v: u64) -> Pubkey {
        self.cached(5, p, p, v, || Self::pda(&[b"merkle_root", p.as_ref(), &v.to_le_bytes()]))
    }
    pub fn pda_op(&self, c: &Pubkey, o: &Pubkey) -> Pubkey {
        self.cached(6, c, o, 0, || Self::pda(&[b"operator", c.as_ref(), o.as_ref()]))
    }
    pub fn pda_meta(&self, p: &Pubkey) -> Pubkey {
        self.cached(7, p, p, 0, || Self::pda(&[b"server_metadata", p.as_ref()]))
    }
    pub fn ata(&self, owner: &Pubkey, mint: &Pubkey, tp: &Pubkey) -> Pubkey {
        self.cached(8, owner, mint, (*tp == spl_token_2022::ID) as u64, || {
            spl_associated_token_account_client::address::get_associated_token_address_with_program_id(owner, mint, tp)
        })
    }

    pub fn tp_of(&self, m: u8) -> Pubkey {
        if self.cfg.mints[m as usize].t22() {
            spl_token_2022::ID
        } else {
            spl_token::ID
        }
    }

    fn compute(&self, k: K) -> Pubkey {
        match k {
            K::W(i) if self.cfg.salt % 3 == 0 => {
                // wallets that differ in one byte only
                let mut k = self.derive(b"W", 256, 0).to_bytes();
                k[(self.cfg.salt >> 8) as usize % 32] ^= i;
                Pubkey::new_from_array(k)
            }
            K::W(i) => self.derive(b"W", i as u64, 0),
            K::M(i) => match self.cfg.mints.get(i as usize).map(|m| m.kind) {
                Some(WSOL) => spl_token::native_mint::ID,
                Some(T22_NATIVE) => spl_token_2022::native_mint::ID,
                _ => self.derive(b"M", i as u64, 0),
            },
            K::Tok(w, m) => self.ata(&self.key(K::W(w)), &self.key(K::M(m)), &self.tp_of(m)),
            K::Tok2(w, m) => self.derive(b"T2", w as u64, m as u64),
            K::Base(i) => self.derive(b"B", i as u64, 0),
            K::P(i) => {
                let s = &self.cfg.presales[i as usize];
                self.pda_presale(&self.key(K::Base(s.base)), &self.key(K::M(s.bm)), &self.key(K::M(s.qm)))
            }
            K::BV(i) => self.pda_bvault(&self.key(K::P(i))),
            K::QV(i) => self.pda_qvault(&self.key(K::P(i))),
            K::Auth => Self::pda(&[b"presale_authority"]),
            K::Esc(p, w, r) => self.pda_escrow(&self.key(K::P(p)), &self.key(K::W(w)), r),
            K::Mr(p, v) => self.pda_mr(&self.key(K::P(p)), v),
            K::Op(c, o) => self.pda_op(&self.key(K::W(c)), &self.key(K::W(o))),
            K::Meta(p) => self.pda_meta(&self.key(K::P(p))),
            K::Args(p) => self.pda_args(&self.key(K::P(p))),
            K::EvAuth => Self::pda(&[b"__event_authority"]),
            K::Prog => PROGRAM,
            K::Sys => system_program::ID,
            K::TokP => spl_token::ID,
            K::Tok22P => spl_token_2022::ID,
            K::Memo => spl_memo::ID,
            K::HookP => hook_program(),
            K::HookV(m) => get_extra_account_metas_address(&self.key(K::M(m)), &hook_program()),
            K::HookC(m) => self.derive(b"HC", m as u64, 0),
            K::Fake(i) => self.derive(b"F", i as u64, 0),
        }
    }

    pub fn authority(&self) -> Pubkey {
        self.derive(b"mint-authority", 0, 0)
    }

    pub fn mint_index(&self, k: &Pubkey) -> Option<u8> {
        (0..self.cfg.mints.len() as u8).find(|i| self.key(K::M(*i)) == *k)
    }

    fn run(&self, b: &mut Bank, i: Instruction) {
        let r = b.exec(&[to_ix(i)], None);
        assert!(r.ok, "world setup failed: {}", r.err);
    }

    pub fn setup(&self) -> Bank {
        let mut b = Bank::new();
        b.ts = self.cfg.t0;
        b.slot = 1000;
        b.epoch = 100;
        for p in [PROGRAM, spl_token::ID, spl_token_2022::ID, spl_memo::ID, system_program::ID, hook_program()] {
            b.put(p, Acct { lamports: 1, data: vec![], owner: system_program::ID, executable: true });
        }
        b.put(self.key(K::Auth), Acct::wallet(10_000_000));
        for w in 0..self.cfg.wallets {
            b.put(self.key(K::W(w)), Acct::wallet(1_000_000_000_000));
        }
        b.put(self.authority(), Acct::wallet(1_000_000_000_000));
        for m in 0..self.cfg.mints.len() as u8 {
            self.setup_mint(&mut b, m);
        }
        b
    }

    fn setup_mint(&self, b: &mut Bank, m: u8) {
        let c = &self.cfg.mints[m as usize];
        let mk = self.key(K::M(m));
        let auth = self.authority();
        let tp = self.tp_of(m);
        match c.kind {
            WSOL | T22_NATIVE => {
                let mut d = vec![0; spl_token::state::Mint::LEN];
                spl_token::state::Mint {
                    mint_authority: COption::None,
                    supply: 0,
                    decimals: 9,
                    is_initialized: true,
                    freeze_authority: COption::None,
                }
                .pack_into_slice(&mut d);
                b.put(mk, Acct { lamports: rent_min(82), data: d, owner: tp, executable: false });
            }
            _ => {
                let mut exts = vec![];
                let mut init: Vec<Instruction> = vec![];
                let with = |bit: u8| c.kind == T22_BAD && c.ext >= 20 && (c.ext / 20) & bit != 0;
                if c.fee() || with(4) {
                    exts.push(ExtensionType::TransferFeeConfig);
                    init.push(
                        transfer_fee::instruction::initialize_transfer_fee_config(
                            &tp, &mk, Some(&auth), Some(&auth), c.bps, c.maxfee,
                        )
                        .unwrap(),
                    );
                }
                if c.hook() || c.kind == T22_HOOK_NULL || with(2) {
                    exts.push(ExtensionType::TransferHook);
                    let hp = if c.hook() { Some(hook_program()) } else { None };
                    init.push(transfer_hook::instruction::initialize(&tp, &mk, Some(auth), hp).unwrap());
                }
                if c.kind == T22_META || c.meta_too() || with(1) {
                    exts.push(ExtensionType::MetadataPointer);
                    init.push(metadata_pointer::instruction::initialize(&tp, &mk, Some(auth), Some(mk)).unwrap());
                }
                if c.kind == T22_BAD && c.ext < 7 {
                    use spl_token_2022::instruction as i22;
                    match c.ext % 7 {
                        0 => {
                            exts.push(ExtensionType::MintCloseAuthority);
                            init.push(i22::initialize_mint_close_authority(&tp, &mk, Some(&auth)).unwrap());
                        }
                        1 => {
                            exts.push(ExtensionType::PermanentDelegate);
                            init.push(i22::initialize_permanent_delegate(&tp, &mk, &auth).unwrap());
                        }
                        2 => {
                            exts.push(ExtensionType::InterestBearingConfig);
                            init.push(interest_bearing_mint::instruction::initialize(&tp, &mk, Some(auth), 100).unwrap());
                        }
                        3 => {
                            exts.push(ExtensionType::DefaultAccountState);
                            init.push(
                                default_account_state::instruction::initialize_default_account_state(
                                    &tp,
                                    &mk,
                                    &spl_token_2022::state::AccountState::Initialized,
                                )
                                .unwrap(),
                            );
                        }
                        4 => {
                            exts.push(ExtensionType::GroupPointer);
                            init.push(group_pointer::instruction::initialize(&tp, &mk, Some(auth), Some(mk)).unwrap());
                        }
                        5 => {
                            exts.push(ExtensionType::GroupMemberPointer);
                            init.push(group_member_pointer::instruction::initialize(&tp, &mk, Some(auth), Some(mk)).unwrap());
                        }
                        _ => {
                            // a supported and an unsupported extension together
                            exts.push(ExtensionType::TransferFeeConfig);
                            exts.push(ExtensionType::PermanentDelegate);
                            init.push(
                                transfer_fee::instruction::initialize_transfer_fee_config(&tp, &mk, Some(&auth), Some(&auth), 0, 0)
                                    .unwrap(),
                            );
                            init.push(i22::initialize_permanent_delegate(&tp, &mk, &auth).unwrap());
                        }
                    }
                }
                let len = if c.t22() {
                    ExtensionType::try_calculate_account_len::<spl_token_2022::state::Mint>(&exts).unwrap()
                } else {
                    82
                };
                b.put(mk, Acct { lamports: rent_min(len) + 5_000_000, data: vec![0; len], owner: tp, executable: false });
                for i in init {
                    self.run(b, i);
                }
                self.run(
                    b,
                    spl_token_2022::instruction::initialize_mint2(&tp, &mk, &auth, Some(&auth), c.decimals).unwrap(),
                );
                if (c.kind == T22_META && c.ext % 2 == 0) || (c.meta_too() && c.ext % 2 == 0) {
                    self.run(
                        b,
                        spl_token_metadata_interface::instruction::initialize(
                            &tp, &mk, &auth, &mk, &auth, "Sim".into(), "SIM".into(), "https://x".into(),
                        ),
                    );
                }
                if c.hook() {
                    let n = ExtraAccountMetaList::size_of(1).unwrap();
                    let mut d = vec![0; n];
                    ExtraAccountMetaList::init::<ExecuteInstruction>(
                        &mut d,
                        &[ExtraAccountMeta::new_with_pubkey(&self.key(K::HookC(m)), false, true).unwrap()],
                    )
                    .unwrap();
                    b.put(
                        self.key(K::HookV(m)),
                        Acct { lamports: rent_min(n), data: d, owner: hook_program(), executable: false },
                    );
                    b.put(
                        self.key(K::HookC(m)),
                        Acct { lamports: rent_min(16), data: vec![0; 16], owner: hook_program(), executable: false },
                    );
                }
            }
        }
        for w in 0..self.cfg.wallets {
            let amt = if w == 0 { c.big } else { c.small };
            self.setup_token(b, K::Tok(w, m), w, m, amt);
            self.setup_token(b, K::Tok2(w, m), w, m, 0);
        }
        if c.kind == T22_BAD && c.ext >= 7 {
            // an unsupported extension written straight into the mint, after supported ones if any
            let (t, n) = BAD_EXT[(c.ext - 7) as usize % BAD_EXT.len()];
            let mut a = b.get(&mk).unwrap().clone();
            if a.data.len() < 166 {
                a.data.resize(165, 0);
                a.data.push(1);
            }
            a.data.extend_from_slice(&(t as u16).to_le_bytes());
            a.data.extend_from_slice(&(n as u16).to_le_bytes());
            a.data.extend(vec![0; n]);
            a.lamports += rent_min(a.data.len());
            b.put(mk, a);
        }
    }

    fn setup_token(&self, b: &mut Bank, at: K, w: u8, m: u8, amount: u64) {
        let c = &self.cfg.mints[m as usize];
        let tp = self.tp_of(m);
        let (mk, ak, ok) = (self.key(K::M(m)), self.key(at), self.key(K::W(w)));
        let len = if c.t22() {
            let md = &b.get(&mk).unwrap().data;
            let st = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(md).unwrap();
            let mut e = ExtensionType::get_required_init_account_extensions(&st.get_extension_types().unwrap());
            e.push(ExtensionType::MemoTransfer);
            ExtensionType::try_calculate_account_len::<spl_token_2022::state::Account>(&e).unwrap()
        } else {
            165
        };
        let native = matches!(c.kind, WSOL | T22_NATIVE);
        let lam = rent_min(len) + if native { amount } else { 0 };
        b.put(ak, Acct { lamports: lam, data: vec![0; len], owner: tp, executable: false });
        self.run(b, spl_token_2022::instruction::initialize_account3(&tp, &ak, &mk, &ok).unwrap());
        if !native && amount > 0 {
            self.run(b, spl_token_2022::instruction::mint_to(&tp, &mk, &ak, &self.authority(), &[], amount).unwrap());
        }
    }
}

// ---------------------------------------------------------------- token account view

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub program: Pubkey,
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub frozen: bool,
    pub memo: bool,
    pub native: Option<u64>,
    pub withheld: u64,
}

pub fn tok_view(a: &Acct) -> Option<Tok> {
    if a.owner != spl_token::ID && a.owner != spl_token_2022::ID {
        return None;
    }
    if a.owner == spl_token::ID && a.data.len() != 165 {
        return None;
    }
    let s = StateWithExtensions::<spl_token_2022::state::Account>::unpack(&a.data).ok()?;
    let memo = s
        .get_extension::<memo_transfer::MemoTransfer>()
        .map(|m| bool::from(m.require_incoming_transfer_memos))
        .unwrap_or(false);
    let withheld = s
        .get_extension::<transfer_fee::TransferFeeAmount>()
        .map(|f| u64::from(f.withheld_amount))
        .unwrap_or(0);
    Some(Tok {
        program: a.owner,
        mint: s.base.mint,
        owner: s.base.owner,
        amount: s.base.amount,
        frozen: s.base.is_frozen(),
        memo,
        native: match s.base.is_native {
            COption::Some(x) => Some(x),
            COption::None => None,
        },
        withheld,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct MintView {
    pub program: Pubkey,
    pub supply: u64,
    pub decimals: u8,
    pub fee: Option<[(u64, u16, u64); 2]>, // (epoch, bps, max) older, newer
    pub hook: Option<Pubkey>,
    pub exts: Vec<ExtensionType>,
}

pub fn mint_view(a: &Acct) -> Option<MintView> {
    if a.owner != spl_token::ID && a.owner != spl_token_2022::ID {
        return None;
    }
    if a.owner == spl_token::ID && a.data.len() != 82 {
        return None;
    }
    let s = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(&a.data).ok()?;
    let fee = s.get_extension::<transfer_fee::TransferFeeConfig>().ok().map(|f| {
        [f.older_transfer_fee, f.newer_transfer_fee].map(|t| {
            (u64::from(t.epoch), u16::from(t.transfer_fee_basis_points), u64::from(t.maximum_fee))
        })
    });
    Some(MintView {
        program: a.owner,
        supply: s.base.supply,
        decimals: s.base.decimals,
        fee,
        hook: transfer_hook::get_program_id(&s),
        exts: s.get_extension_types().ok()?,
    })
}

impl MintView {
    pub fn epoch_fee(&self, epoch: u64) -> Option<(u16, u64)> {
        self.fee.map(|f| if epoch >= f[1].0 { (f[1].1, f[1].2) } else { (f[0].1, f[0].2) })
    }
    /// fee withheld from a transfer of `amt`
    pub fn fee_on(&self, amt: u64, epoch: u64) -> u64 {
        match self.epoch_fee(epoch) {
            None => 0,
            Some((bps, max)) => {
                if bps == 0 || amt == 0 {
                    0
                } else {
                    let f = (amt as u128 * bps as u128).div_ceil(10_000);
                    f.min(max as u128) as u64
                }
            }
        }
    }
    /// smallest-known gross amount that nets exactly `net`, None if it cannot be expressed
    pub fn gross_for(&self, net: u64, epoch: u64) -> Option<u64> {
        if net == 0 {
            return Some(0);
        }
        match self.epoch_fee(epoch) {
            None | Some((0, _)) => Some(net),
            Some((bps, max)) => {
                let capped = net.checked_add(max);
                if bps == 10_000 {
                    return capped;
                }
                let g = (net as u128 * 10_000).div_ceil(10_000 - bps as u128);
                if g - net as u128 >= max as u128 {
                    capped
                } else {
                    u64::try_from(g).ok()
                }
            }
        }
    }
}
