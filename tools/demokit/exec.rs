//! Scripted client for demonstrations: runs transactions against the real program code and fails loudly.
use crate::abi::*;
use crate::bank::{Bank, TxResult};
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub struct Engine {
    pub w: &'static World,
    pub b: Bank,
    pub ev: Vec<Vec<u8>>,
}
pub fn mint(kind: u8) -> MintCfg {
    MintCfg { kind, decimals: 6, bps: 0, maxfee: 0, ext: 0, big: 1 << 60, small: 1 << 50 }
}
impl Engine {
    /// wallet 0 creates every presale; mint 0 is base, mint 1 is quote
    pub fn new(base: MintCfg, quote: MintCfg, presales: u8) -> Self {
        crate::bank::install();
        let w = Box::leak(Box::new(World::new(WorldCfg {
            salt: 7,
            t0: 1_700_000_000,
            wallets: 8,
            mints: vec![base, quote],
            presales: (0..presales).map(|i| PSlot { base: i, bm: 0, qm: 1, creator: i }).collect(),
        })));
        for i in 0..8 {
            w.key(K::W(i));
        }
        let b = w.setup();
        Engine { w, b, ev: vec![] }
    }
    pub fn now(&self) -> u64 {
        self.b.ts as u64
    }
    pub fn at(&mut self, t: u64) {
        self.b.ts = t as i64;
        self.b.slot += 1;
    }
    pub fn p(&self, p: u8) -> Option<&'static PState> {
        match decode(&self.b.get(&self.w.key(K::P(p)))?.data)? {
            Prg::Presale(x) => Some(Box::leak(x)),
            _ => None,
        }
    }
    pub fn e(&self, p: u8, o: u8, r: u8) -> Option<EState> {
        match decode(&self.b.get(&self.w.key(K::Esc(p, o, r)))?.data)? {
            Prg::Escrow(x) => Some(x),
            _ => None,
        }
    }
    pub fn wallet_of(&self, k: &Pubkey) -> Option<u8> {
        match self.w.sym(k)? {
            K::W(i) => Some(i),
            _ => None,
        }
    }
    pub fn tok(&self, k: K) -> u64 {
        self.b.get(&self.w.key(k)).and_then(tok_view).map(|t| t.amount).unwrap_or(0)
    }
    pub fn run(&mut self, specs: &[IxSpec]) -> TxResult {
        let ixs: Vec<_> = specs.iter().map(|s| s.build(self.w)).collect();
        let r = self.b.exec(&ixs, None);
        self.ev = r.events.iter().map(|e| e.1.clone()).collect();
        r
    }
    pub fn go(&mut self, s: IxSpec) {
        let r = self.run(&[s.clone()]);
        if !r.ok {
            bad(&format!("{} was refused but should be accepted: {}", s.op.name(), r.err));
        }
    }
    pub fn no(&mut self, s: IxSpec) {
        let r = self.run(&[s.clone()]);
        if r.ok {
            bad(&format!("{} was accepted but should be refused: {:?}", s.op.name(), s));
        }
    }
}
pub fn bad(m: &str) -> ! {
    eprintln!("DEMO: {m}");
    std::process::exit(1)
}
pub fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) {
    if got != want {
        bad(&format!("{what}: got {got:?}, expected {want:?}"));
    }
}
/// A plain pro-rata sale opening now: one registry, 10 % fee, no vesting lock beyond 1000+1000 s.
pub fn cfg(e: &Engine, mode: u8) -> InitCfg {
    InitCfg {
        max: 10_000,
        min: 1_000,
        start: e.now(),
        end: e.now() + 1_000,
        wl: 0,
        mode,
        unsold: 0,
        dee: 0,
        imm_bps: 0,
        lock: 1_000,
        vest: 1_000,
        imm_ts: e.now() + 1_000,
        regs: vec![reg(1, 10_000, 1_000_000, 1_000)],
    }
}
pub fn reg(min: u64, max: u64, supply: u64, bps: u16) -> RegCfg {
    RegCfg { min, max, supply, bps }
}
