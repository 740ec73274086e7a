//! Seeded workload, adversary and fault generator. It sees the current state, picks the next step and records it;
//! the recorded steps alone reproduce the run.
use crate::abi::*;
use crate::build;
use crate::exec::*;
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::BTreeMap;

pub const PAYER: u8 = 0;
pub const CREATORS: [u8; 2] = [1, 2];
pub const OPERATOR: u8 = 3;
pub const BUYERS: [u8; 3] = [4, 5, 6];
pub const EVIL: u8 = 7;
pub const WALLETS: u8 = 8;

/// Per-run knobs (swarm style).
#[derive(Clone)]
pub struct Prof {
    pub modes: [u64; 3],
    pub wl: [u64; 3],
    pub mintw: [u64; 10],
    pub mutate: u64,
    pub oop: u64,
    pub fault: u64,
    pub interfere: u64,
    pub badcfg: u64,
    pub delay: u64,
    pub multi: u64,
    pub steps: (u64, u64),
    pub fail_sale: u64,
    pub oversub: u64,
    pub fill: u64,
    pub vest: u64,
    pub fees: u64,
    pub multireg: u64,
    pub bits: (u64, u64),
    pub dee: u64,
    pub slots: u64,
    /// the presales of the run share mints, schedule and buyers
    pub twin: bool,
    /// share of mutations that swap in the matching account of a sibling presale
    pub cross: u64,
    // action weights
    pub w_esc: u64,
    pub w_dep: u64,
    pub w_wd: u64,
    pub w_claim: u64,
    pub w_refresh: u64,
    pub w_refund: u64,
    pub w_creator: u64,
    pub w_unsold: u64,
    pub w_close: u64,
    pub w_time: u64,
    pub w_mr: u64,
    pub w_op: u64,
    pub w_meta: u64,
    pub w_args: u64,
}

pub fn prof(prop: &str, r: &mut Rng) -> Prof {
    let mut p = Prof {
        modes: [3, 3, 3],
        wl: [6, 2, 2],
        mintw: [50, 8, 12, 6, 8, 4, 0, 4, 0, 2],
        mutate: 8,
        oop: 8,
        fault: 6,
        interfere: 6,
        badcfg: 3,
        delay: 12,
        multi: 8,
        steps: (30, 110),
        fail_sale: 25,
        oversub: 50,
        fill: 50,
        vest: 65,
        fees: 60,
        multireg: 50,
        bits: (3, 58),
        dee: 25,
        slots: 2,
        twin: false,
        cross: 15,
        w_esc: 8,
        w_dep: 14,
        w_wd: 6,
        w_claim: 12,
        w_refresh: 4,
        w_refund: 7,
        w_creator: 5,
        w_unsold: 3,
        w_close: 5,
        w_time: 10,
        w_mr: 2,
        w_op: 2,
        w_meta: 1,
        w_args: 1,
    };
    // swarm: randomly silence or stress some behaviours
    for w in [
        &mut p.w_wd,
        &mut p.w_claim,
        &mut p.w_refresh,
        &mut p.w_refund,
        &mut p.w_creator,
        &mut p.w_unsold,
        &mut p.w_close,
        &mut p.w_meta,
    ] {
        match r.below(8) {
            0 => *w = 0,
            1 => *w *= 4,
            _ => {}
        }
    }
    for w in [&mut p.mutate, &mut p.fault, &mut p.interfere, &mut p.delay, &mut p.oop] {
        match r.below(6) {
            0 | 1 => *w = 0,
            2 => *w *= 3,
            _ => {}
        }
    }
    match r.below(4) {
        0 => p.bits = (2, 8),
        1 => p.bits = (10, 30),
        2 => p.bits = (28, 45),
        _ => {}
    }
    match prop {
        "C02" => p.w_unsold += 6,
        "C03" => {
            p.vest = 95;
            p.fail_sale = 3;
            p.w_claim += 14;
            p.w_refresh += 10;
            p.w_time += 8;
        }
        "C04" => {
            p.fail_sale = 3;
            p.w_dep += 8;
            p.w_claim += 8;
        }
        "C05" => {
            p.modes = [5, 2, 4];
            p.w_dep += 16;
            p.wl = [5, 3, 3];
            p.fill = 70;
        }
        "C06" => {
            p.w_dep += 16;
            p.fees = 85;
            p.modes = [5, 2, 2];
        }
        "C07" => {
            p.oop = 35;
            p.w_time += 10;
        }
        "C08" => {
            p.modes = [4, 1, 4];
            p.fill = 92;
            p.fail_sale = 3;
            p.dee = 30;
            p.vest = 85;
            p.w_dep += 10;
        }
        "C09" => {
            p.fail_sale = 85;
            p.w_refund += 10;
            p.w_creator += 6;
            p.w_wd += 3;
            p.fees = 85;
        }
        "C10" => {
            p.modes = [1, 12, 1];
            p.fail_sale = 5;
            p.oversub = 90;
            p.fees = 85;
            p.wl = [3, 3, 3];
            p.w_refund += 10;
        }
        "C11" => {
            p.w_creator += 14;
            p.modes = [3, 5, 3];
            p.fees = 85;
        }
        "C12" => {
            p.w_unsold += 12;
            p.fail_sale = 10;
            p.modes = [5, 3, 3];
            p.wl = [3, 3, 4];
            p.multireg = 80;
        }
        "C13" | "C14" => {
            p.mutate = 40;
            p.slots = 3;
            p.twin = r.pct(if prop == "C14" { 80 } else { 40 });
            p.cross = if prop == "C14" { 50 } else { 15 };
            p.w_meta += 2;
            p.w_args += 3;
            p.wl = [4, 4, 4];
            p.w_mr += 3;
            p.w_op += 3;
        }
        "C15" => {
            p.wl = [1, 9, 1];
            p.w_mr += 8;
            p.w_esc += 18;
            p.mutate = p.mutate.max(12);
            p.slots = 3;
        }
        "C16" => {
            p.wl = [2, 2, 9];
            p.w_op += 8;
            p.w_esc += 16;
            p.mutate = p.mutate.max(15);
            p.slots = 3;
        }
        "C17" => {
            p.modes = [4, 4, 1];
            p.w_wd += 16;
            p.fees = 80;
        }
        "C18" => {
            p.w_close += 12;
            p.w_esc += 6;
            p.w_claim += 4;
            p.w_refund += 4;
            p.w_wd += 4;
        }
        "C20" => {
            p.badcfg = 65;
            p.steps = (14, 45);
            p.slots = 7;
            p.w_args += 4;
        }
        "C22" => {
            p.mintw = [10, 10, 25, 15, 20, 8, 10, 3, 3, 5];
            p.fault = 12;
            p.badcfg = 0;
        }
        "C26" => {
            p.wl = [2, 4, 4];
            p.modes = [4, 2, 2];
            p.slots = 4;
            p.steps = (30, 90);
            p.mutate = p.mutate.max(15);
            p.w_mr += 10;
            p.w_op += 8;
            p.w_meta += 8;
            p.w_args += 8;
            p.w_esc += 4;
            p.w_close += 4;
            p.badcfg = 1;
            p.twin = r.pct(40);
            p.cross = 30;
        }
        "C24" => {
            p.interfere = 25;
            p.w_refresh += 10;
            p.mutate = 4;
            p.delay = 0;
        }
        _ => {}
    }
    if matches!(prop, "C01" | "C02" | "C15" | "C16" | "C19" | "C24") && r.pct(25) {
        p.twin = true;
        p.cross = 50;
        p.mutate = p.mutate.max(15);
    }
    p
}

pub fn gen_world(r: &mut Rng, p: &Prof, bits: u32) -> WorldCfg {
    let mut mints = vec![];
    let qsmall = (1u64 << (bits + 4).min(60)).max(64);
    for i in 0..3usize {
        let mut kind = r.weighted(&p.mintw) as u8;
        if (i == 0 && (kind == WSOL || kind == T22_NATIVE)) || (i == 2 && kind == WSOL) {
            kind = SPL; // wrapped SOL is a quote token
        }
        if kind == T22_NATIVE && i != 1 {
            kind = T22;
        }
        let bps = *r.pick(&[0u16, 1, 50, 100, 333, 999, 2500, 5000, 9999, 10000]);
        let maxfee = match r.below(6) {
            0 => 0,
            1 => r.range(1, 20),
            2 => r.logu(bits.max(2)),
            _ => u64::MAX,
        };
        let bps = if maxfee == u64::MAX && bps == 10000 { 9000 } else { bps };
        let (big, small) = if i == 1 {
            (qsmall, qsmall)
        } else if i == 0 {
            (u64::MAX - 8 * 1_000_000, 1_000_000)
        } else {
            (1u64 << 60, 1u64 << 60)
        };
        let (big, small) = if kind == WSOL || kind == T22_NATIVE { (big.min(1 << 58), small.min(1 << 58)) } else { (big, small) };
        mints.push(MintCfg { kind, decimals: r.below(10) as u8, bps, maxfee, ext: r.below(160) as u8, big, small });
    }
    let n = if p.twin { 2 + r.below(p.slots - 1) } else { 1 + r.below(p.slots) };
    let mut presales = vec![];
    for i in 0..n {
        let c = if i == 0 {
            1
        } else {
            *r.pick(&[1u8, 2, 2, EVIL])
        };
        let s = match (i, r.below(5)) {
            (0, _) => PSlot { base: 0, bm: 0, qm: 1, creator: c },
            _ if p.twin => PSlot { base: i as u8, bm: 0, qm: 1, creator: c },
            // sold for its own token
            (_, 2) if r.pct(25) => PSlot { base: i as u8, bm: 2, qm: 2, creator: c },
            (_, 0) => PSlot { base: 0, bm: 2, qm: 1, creator: c },
            (_, 1) => PSlot { base: i as u8, bm: 2, qm: 1, creator: c },
            _ => PSlot { base: i as u8, bm: 0, qm: 1, creator: c },
        };
        presales.push(s);
    }
    // no two slots may be the same address
    for i in 0..presales.len() {
        for j in 0..i {
            if presales[i].base == presales[j].base && presales[i].bm == presales[j].bm && presales[i].qm == presales[j].qm {
                presales[i].base = 10 + i as u8;
            }
        }
    }
    // some runs start just before a timestamp no longer fits 31 or 32 bits, or far beyond
    let t0 = match r.below(25) {
        0 => (1i64 << 31) - r.below(1 << 22) as i64,
        1 => (1i64 << 32) - r.below(1 << 22) as i64,
        2 => (1i64 << 40) - r.below(1 << 22) as i64,
        _ => 1_700_000_000 + r.below(1_000_000) as i64,
    };
    WorldCfg { salt: r.next(), t0, wallets: WALLETS, mints, presales }
}

#[derive(Clone)]
struct MTree {
    entries: Vec<(u8, u8, u64)>,
    levels: Vec<Vec<[u8; 32]>>,
}

pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub bits: u32,
    plan: Option<(InitCfg, u128, u8)>,
    trees: BTreeMap<(u8, u64), MTree>,
    pending: Vec<Step>,
    queue: Vec<Step>,
    fakes: u8,
    has_snap: bool,
    init_fails: Vec<u32>,
    /// escrows wanted per presale before the workload prefers other actions
    crowd: usize,
    /// consecutive steps with nothing useful left to do
    pub idle: u32,
}

impl Gen {
    pub fn new(mut r: Rng, p: Prof, bits: u32, n: usize) -> Self {
        let crowd = 1 + r.below(7) as usize;
        Gen {
            crowd,
            idle: 0,
            r,
            p,
            bits,
            plan: None,
            trees: BTreeMap::new(),
            pending: vec![],
            queue: vec![],
            fakes: 0,
            has_snap: false,
            init_fails: vec![0; n],
        }
    }

    fn amount(&mut self) -> u64 {
        let lo = self.bits.saturating_sub(6).max(1);
        let b = self.r.range(lo as u64, self.bits as u64) as u32;
        self.r.range(1u64 << (b - 1), (1u64 << b) - 1 + (b == 1) as u64).max(1)
    }

    // ------------------------------------------------------------ configurations

    fn good_cfg(&mut self, now: u64) -> (InitCfg, u128, u8) {
        let mode = self.r.weighted(&self.p.modes) as u8;
        let wl = self.r.weighted(&self.p.wl) as u8;
        let max = self.amount().max(2);
        let r = &mut self.r;
        let start = match r.below(5) {
            0 => now.saturating_sub(r.below(1000)),
            1 => now,
            2 => now + r.range(1, 10),
            3 => now + r.range(1, 86400),
            _ => now + r.below(30 * 86400 + 1),
        };
        let s = start.max(now);
        let dur = match r.below(4) {
            0 => 60,
            1 => r.range(60, 600),
            2 => r.range(60, 30 * 86400),
            _ => *r.pick(&[60, 61, 3600, 86400, 30 * 86400]),
        };
        let end = s + dur;
        let (mut imm_bps, mut lock, mut vest, mut imm_ts) = (0u16, 0u64, 0u64, 0u64);
        if r.pct(self.p.vest) {
            let d = |r: &mut Rng| match r.below(5) {
                0 => 1 + r.below(7),
                1 => 1 + r.below(1000),
                2 => 86400 * (1 + r.below(90)),
                3 => r.range(1, 5 * 365 * 86400 - 1),
                _ => 60,
            };
            match r.below(8) {
                0 => {
                    imm_bps = 10_000;
                    imm_ts = if r.pct(50) { end } else { 0 };
                }
                1 => lock = d(r),
                2 => vest = d(r),
                _ => {
                    if r.pct(70) {
                        vest = d(r);
                    }
                    if r.pct(60) || vest == 0 {
                        lock = d(r);
                    }
                    if r.pct(80) {
                        imm_bps = *r.pick(&[1u16, 100, 1000, 3333, 5000, 7777, 9999]);
                        imm_ts = match r.below(5) {
                            0 => 0,
                            1 => end,
                            2 => end + lock + vest,
                            3 => end + r.below(lock + vest + 1),
                            _ => end + lock,
                        };
                    } else if r.pct(30) {
                        imm_ts = end;
                    }
                }
            }
        }
        let nreg = if wl == 0 || !r.pct(self.p.multireg) { 1 } else { 1 + r.below(5) as usize };
        let mut q = 0u128;
        let mut dw = 0;
        let mut min = if r.pct(self.p.fail_sale) {
            // hard to reach
            max - r.below((max / 8).max(1))
        } else {
            1 + r.below((max / 4).max(1))
        };
        let mut supply_total: u64;
        let (mut bmin, mut bmax);
        if mode == 0 {
            // price between "many tokens per quote unit" and "many quote units per token"
            q = match r.below(6) {
                0 => 1u128 << 64,
                1 => (1u128 << 64) * (1 + r.below(9)) as u128 / (1 + r.below(9)) as u128,
                2 => (1u128 << 64) / (1 + r.below(1000)) as u128,
                3 => (1u128 << 64) * (1 + r.below((max / 3).max(1).min(1000))) as u128 + r.next() as u128,
                4 => (r.next() as u128) >> r.below(20),
                _ => (1u128 << 64) + (r.next() as u128),
            }
            .max(1);
            // keep bought(max) within u64
            while bought(q, max) > (u64::MAX / 2) as u128 {
                q *= 2;
            }
            while bought(q, max) < 2 {
                q /= 2;
            }
            dw = r.pct(35) as u8;
            let b = bought(q, max) as u64;
            supply_total = b + match r.below(9) {
                0 | 1 => 0,
                2 | 3 => r.below(4),
                4 | 5 => r.below(b / 2 + 1),
                // far more on offer than the cap can buy
                6 => r.logu(61),
                7 if q >> 67 > 0 => {
                    let worth = ((u64::MAX as u128) / (q >> 64)) as u64;
                    worth / 2 + r.below(worth)
                }
                _ => b / 10,
            };
            // gap
            if bought(q, min) >= bought(q, max) {
                min = sat(cost(q, (b - 1) as u128)).max(1).min(max);
                if bought(q, min) >= bought(q, max) {
                    min = (min - 1).max(1);
                }
            }
            let one = sat(cost(q, 1)).max(1);
            if wl == 0 {
                bmin = match r.below(3) {
                    0 => one,
                    1 => one + r.below((max - one.min(max)) / 4 + 1),
                    _ => one,
                };
                bmax = r.range(bmin, max);
                if r.pct(40) {
                    bmax = max;
                }
            } else {
                bmin = q.div_ceil(1u128 << 64).min(u64::MAX as u128) as u64;
                bmax = max;
            }
        } else {
            supply_total = if r.pct(15) { r.logu(62) } else { self_amount(r, self.bits) };
            if wl == 0 {
                bmin = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => 1 + r.below(max / 8 + 1),
                    _ => 1 + r.below((max / 64).max(1)),
                };
                bmax = if r.pct(50) { max } else { r.range(bmin.max(1), max) };
            } else {
                bmin = 1;
                bmax = max;
            }
        }
        bmin = bmin.min(max);
        bmax = bmax.max(bmin).max(1);
        supply_total = supply_total.max(nreg as u64 * 2);
        let mut regs = vec![];
        let mut left = supply_total;
        for i in 0..nreg {
            let last = i + 1 == nreg;
            let sh = if last { left } else { r.range(1, (left - (nreg - i) as u64).max(1)) };
            left -= sh.min(left);
            let bps = if r.pct(self.p.fees) { *r.pick(&[1u16, 30, 100, 333, 1000, 4999, 5000]) } else { 0 };
            regs.push(RegCfg { min: bmin, max: bmax, supply: sh.max(1), bps });
        }
        let c = InitCfg {
            max,
            min,
            start,
            end,
            wl,
            mode,
            unsold: r.below(2) as u8,
            dee: r.pct(self.p.dee) as u8,
            imm_bps,
            lock,
            vest,
            imm_ts,
            regs,
        };
        (c, q, dw)
    }

    fn spoil(&mut self, c: &mut InitCfg, q: &mut u128, dw: &mut u8, now: u64) {
        let r = &mut self.r;
        let s = c.start.max(now);
        let ri = r.below(c.regs.len().max(1) as u64) as usize;
        for _ in 0..1 + r.below(2) {
            let retime = |c: &mut InitCfg, end: u64| {
                if c.imm_ts > 0 {
                    c.imm_ts = (c.imm_ts + end).saturating_sub(c.end);
                }
                c.end = end;
            };
            match r.below(41) {
                0 => c.min = 0,
                40 => c.unsold = *r.pick(&[2u8, 3, 128, 255]),
                1 => c.max = c.min.saturating_sub(1),
                2 => c.min = c.max,
                3 => retime(c, s),
                4 => retime(c, s + 59),
                5 => retime(c, s + 60),
                6 => retime(c, s + 30 * 86400 + 1),
                7 => retime(c, s + 30 * 86400),
                34 => c.min = c.max.saturating_add(1),
                35 => {
                    // fewer tokens than the cap buys
                    if c.mode == 0 && *q > 0 && !c.regs.is_empty() {
                        let b = bought(*q, c.max);
                        let sum: u128 = c.regs.iter().map(|g| g.supply as u128).sum();
                        let g = &mut c.regs[ri];
                        g.supply = (g.supply as u128).saturating_sub(sum.saturating_sub(b) + 1).max(1) as u64;
                    }
                }
                36 if ri < c.regs.len() => c.regs[ri].max = c.regs[ri].max.saturating_sub(1).max(c.regs[ri].min),
                37 if ri < c.regs.len() => {
                    if c.mode == 0 && *q > 0 {
                        c.regs[ri].min = sat(cost(*q, 1)).saturating_sub(1);
                    } else {
                        c.regs[ri].min = *r.pick(&[0, 2]);
                    }
                }
                38 => {
                    c.imm_bps = 10_000;
                    c.imm_ts = *r.pick(&[0, c.end, c.end + 1, c.end.saturating_sub(1)]);
                    if r.pct(50) {
                        c.lock = 0;
                        c.vest = 0;
                    }
                }
                39 => {
                    // each under the limit, together not
                    c.lock = r.range(1, 3650 * 86400 - 1);
                    c.vest = r.range(3650 * 86400 - c.lock, 3650 * 86400 - 1);
                }
                8 => {
                    c.start = now + 30 * 86400 + 1;
                    retime(c, now + 30 * 86400 + 3601);
                }
                9 => {
                    c.start = now + 30 * 86400;
                    retime(c, now + 30 * 86400 + 3600);
                }
                10 => c.wl = 3,
                11 => c.mode = 3 + r.below(250) as u8,
                12 => c.dee = 2,
                13 => c.regs.clear(),
                14 if !c.regs.is_empty() => {
                    while c.regs.len() < 6 {
                        let x = c.regs[0].clone();
                        c.regs.push(x);
                    }
                }
                15 if !c.regs.is_empty() => {
                    let x = c.regs[ri.min(c.regs.len().max(1) - 1)].clone();
                    c.regs.push(x);
                }
                16 => c.wl = r.below(3) as u8,
                17..=24 if ri < c.regs.len() => {
                    let g = &mut c.regs[ri];
                    match r.below(9) {
                        0 => g.supply = 0,
                        1 => g.bps = 5000,
                        2 => g.bps = *r.pick(&[5001u16, 7500, 9999, 10_000, 10_001, u16::MAX]),
                        3 => {
                            g.max = 0;
                            g.min = 0;
                        }
                        4 => g.max = c.max.saturating_add(1),
                        5 => {
                            g.max = (g.max / 2).max(1);
                            g.min = g.max.saturating_add(1);
                        }
                        6 => g.min = 0,
                        7 => g.min = g.min.saturating_add(1),
                        _ => g.supply = u64::MAX - 3,
                    }
                }
                25 => {
                    let tot = 3650 * 86400;
                    c.vest = r.below(tot);
                    c.lock = tot - c.vest - r.below(2);
                }
                26 => c.imm_bps = *r.pick(&[10_000u16, 10_001, u16::MAX, 9_999, 1]),
                27 => c.imm_ts = c.end.saturating_sub(1),
                28 => c.imm_ts = c.end + c.lock + c.vest + r.below(2),
                29 => {
                    c.lock = 0;
                    c.vest = 0;
                    c.imm_bps = c.imm_bps.max(1);
                }
                30 => c.imm_ts = c.end + r.below(3),
                31 => {
                    *q = match r.below(5) {
                        0 => 0,
                        1 => 1,
                        2 => u128::MAX,
                        3 => q.saturating_mul(3),
                        _ => (*q / 3).max(1),
                    }
                }
                32 => *dw = 2,
                _ => c.mode = r.below(3) as u8,
            }
        }
        if c.max == 0 {
            c.max = 0;
        }
    }

    // ------------------------------------------------------------ steps

    pub fn next(&mut self, e: &Engine) -> Step {
        if let Some(s) = self.queue.pop() {
            return s;
        }
        // in-flight transactions: delivered late, twice, in another order
        if !self.pending.is_empty() && self.r.pct(25) {
            let i = self.r.below(self.pending.len() as u64) as usize;
            return if self.r.pct(25) { self.pending[i].clone() } else { self.pending.swap_remove(i) };
        }
        if self.r.pct(self.p.fault) {
            if let Some(s) = self.fault(e) {
                return s;
            }
        }
        if self.r.pct(self.p.interfere) {
            return self.interfere(e);
        }
        let ixs = match self.action(e) {
            Some(Act::Step(s)) => return s,
            Some(Act::Tx(v)) => v,
            None => return Step::Time(1),
        };
        let mut ixs = ixs;
        if self.r.pct(self.p.mutate) {
            let i = self.r.below(ixs.len() as u64) as usize;
            let mut ix = ixs[i].clone();
            let pre = self.mutate(e, &mut ix);
            ixs[i] = ix;
            if let Some(s) = pre {
                self.queue.push(Step::Tx { ixs, fail: None });
                return s;
            }
        }
        let fail = if self.p.fault > 0 && self.r.pct(self.p.fault / 2) { Some(1 + self.r.below(5) as u32) } else { None };
        let tx = Step::Tx { ixs, fail };
        if self.p.delay > 0 && self.r.pct(self.p.delay) {
            match self.r.below(4) {
                0 => {
                    // duplicated: delivered now and again later
                    self.pending.push(tx.clone());
                    return tx;
                }
                1 => return Step::Time(self.r.below(3)), // lost
                _ => {
                    self.pending.push(tx);
                    return Step::Time(self.r.below(3));
                }
            }
        }
        tx
    }

    fn fault(&mut self, e: &Engine) -> Option<Step> {
        let n = e.w.cfg.presales.len() as u64;
        let r = &mut self.r;
        let p = r.below(n) as u8;
        let s = &e.w.cfg.presales[p as usize];
        let (bm, qm) = (s.bm, s.qm);
        let w = r.below(WALLETS as u64) as u8;
        Some(match r.below(9) {
            0 | 1 => {
                let (at, m) = match r.below(4) {
                    0 => (K::Tok(w, qm), qm),
                    1 => (K::Tok(w, bm), bm),
                    2 => (K::QV(p), qm),
                    _ => (K::BV(p), bm),
                };
                if matches!(e.w.cfg.mints[m as usize].kind, WSOL | T22_NATIVE) {
                    return None;
                }
                let on = r.pct(50);
                if on && r.pct(60) {
                    // most freezes are short
                    let d = r.range(1, 4) as usize;
                    let thaw = Step::Freeze { at, m, on: false };
                    let at_i = self.pending.len().min(d);
                    self.pending.insert(at_i, thaw);
                }
                Step::Freeze { at, m, on }
            }
            2 | 3 => {
                let m = if r.pct(50) { bm } else { qm };
                if !e.w.cfg.mints[m as usize].hook() {
                    return None;
                }
                let on = r.pct(50);
                if on {
                    self.pending.push(Step::HookFail { m, on: false });
                }
                Step::HookFail { m, on }
            }
            4 => Step::Memo { w, m: if r.pct(50) { bm } else { qm }, second: r.pct(30), on: r.pct(70) },
            5 => {
                let m = if r.pct(50) { bm } else { qm };
                if !e.w.cfg.mints[m as usize].fee() {
                    return None;
                }
                Step::SetFee {
                    m,
                    bps: *r.pick(&[0u16, 1, 77, 500, 2000, 9999, 10000]),
                    max: *r.pick(&[0u64, 1, 50, 100_000, 1 << 40]),
                }
            }
            6 => Step::Epoch(1 + r.below(3)),
            7 => {
                self.has_snap = true;
                Step::Snapshot
            }
            _ => {
                if !self.has_snap {
                    return None;
                }
                self.has_snap = false;
                Step::Rollback
            }
        })
    }

    fn interfere(&mut self, e: &Engine) -> Step {
        let n = e.w.cfg.presales.len() as u64;
        let p = self.r.below(n) as u8;
        let s = e.w.cfg.presales[p as usize].clone();
        let r = &mut self.r;
        let b = *r.pick(&BUYERS);
        let reg = r.below(2) as u8;
        match r.below(7) {
            0 | 1 | 2 => {
                let pk = e.w.key(K::P(p));
                let es = e.escrows_of(&pk);
                if es.is_empty() {
                    return Step::Tx { ixs: vec![build::refresh(p, b, reg)], fail: None };
                }
                let (_, x) = &es[r.below(es.len() as u64) as usize];
                let o = e.wallet_of(&x.owner).unwrap_or(b);
                Step::Tx { ixs: vec![build::refresh(p, o, x.reg)], fail: None }
            }
            3 => Step::Donate { from: EVIL, m: s.qm, to: K::QV(p), amount: 1 + r.logu(self.bits.max(2)) / 16 },
            4 => Step::Donate { from: EVIL, m: s.bm, to: K::BV(p), amount: 1 + r.below(1000) },
            5 => {
                let to = *r.pick(&[
                    K::P(p),
                    K::QV(p),
                    K::BV(p),
                    K::Esc(p, b, reg),
                    K::Esc(p, b, 0),
                    K::Mr(p, 0),
                    K::Op(s.creator, OPERATOR),
                    K::Args(p),
                    K::Meta(p),
                ]);
                let amount = if r.pct(50) { 1_000_000 + r.below(3_000_000) } else { 20_000_000 };
                Step::Lamports { from: EVIL, to, amount }
            }
            _ => {
                let of = *r.pick(&[K::P(p), K::Esc(p, b, 0), K::QV(p), K::BV(p), K::Op(s.creator, OPERATOR)]);
                self.fakes = (self.fakes + 1) % 8;
                Step::Forge { at: self.fakes, of, patch: vec![] }
            }
        }
    }

    fn action(&mut self, e: &Engine) -> Option<Act> {
        let n = e.w.cfg.presales.len() as u64;
        let missing: Vec<u8> = (0..n as u8).filter(|i| e.p(*i).is_none() && self.init_fails[*i as usize] < 6).collect();
        if !missing.is_empty() && (missing.len() as u64 == n || self.r.pct(if self.p.twin { 90 } else if self.p.badcfg > 50 { 60 } else { 15 })) {
            let i = missing[0];
            return Some(self.create(e, i));
        }
        // creation of an existing presale again, or with bad configuration
        if self.r.pct(1 + self.p.badcfg / 20) {
            let i = self.r.below(n) as u8;
            return Some(self.create(e, i));
        }
        let live: Vec<u8> = (0..n as u8).filter(|i| e.p(*i).is_some()).collect();
        if live.is_empty() {
            return Some(Act::Step(Step::Time(1 + self.r.below(100))));
        }
        let mut p = live[self.r.below(live.len() as u64) as usize];
        let over = |p: u8| {
            let st = e.p(p).unwrap();
            progress(st, e.now()) > ONGOING
                && e.escrows_of(&e.w.key(K::P(p))).is_empty()
                && (st.creator_withdrawn != 0 || st.dep == 0 && progress(st, e.now()) == COMPLETED)
        };
        if over(p) && self.r.pct(80) {
            // nothing left to do here: look elsewhere
            match live.iter().copied().find(|q| !over(*q)) {
                Some(q) => p = q,
                None if !missing.is_empty() => return Some(self.create(e, missing[0])),
                None => self.idle += 1,
            }
        } else {
            self.idle = 0;
        }
        let st = e.p(p).unwrap().clone();
        let now = e.now();
        let mut ph = progress(&st, now);
        if self.r.pct(self.p.oop) {
            ph = self.r.below(4) as u8;
        }
        let c = &self.p;
        // action table: esc dep wd claim refresh refund creator unsold close time mr op meta args
        let es: Vec<(u8, EState)> = e
            .escrows_of(&e.w.key(K::P(p)))
            .into_iter()
            .filter_map(|(_, x)| e.wallet_of(&x.owner).map(|o| (o, x)))
            .collect();
        let mut w: [u64; 14] = match ph {
            NOT_STARTED => [1, 1, 0, 0, 1, 0, 1, 0, 0, c.w_time + 8, c.w_mr * 4, c.w_op * 3, c.w_meta * 2, c.w_args],
            ONGOING => [
                c.w_esc,
                c.w_dep,
                c.w_wd,
                1,
                c.w_refresh / 2 + 1,
                1,
                1,
                1,
                c.w_close,
                c.w_time,
                c.w_mr * if st.wl == 1 { 2 } else { 1 },
                c.w_op * if st.wl == 2 { 2 } else { 1 },
                c.w_meta,
                c.w_args,
            ],
            COMPLETED => [
                1,
                1,
                1,
                c.w_claim,
                c.w_refresh,
                c.w_refund / if st.mode == 1 { 1 } else { 4 } + 1,
                c.w_creator,
                c.w_unsold,
                c.w_close,
                c.w_time,
                c.w_mr / 2,
                c.w_op / 2,
                c.w_meta,
                0,
            ],
            _ => [1, 1, 1, 2, 2, c.w_refund + 4, c.w_creator, 1, c.w_close, c.w_time / 2 + 1, c.w_mr / 2, c.w_op / 2, c.w_meta, 0],
        };
        if st.wl != 1 {
            w[10] = w[10].min(2);
        }
        if st.wl == 0 {
            w[12] = w[12].min(1);
        }
        if es.is_empty() {
            // without buyers most actions can only be refused
            for i in [1, 2, 3, 4, 5, 8] {
                w[i] = w[i].min(1);
            }
        }
        if ph == ONGOING {
            let admitted = e.p(p).map_or(0, |s| s.escrows) as usize;
            if admitted < self.crowd {
                w[0] = w[0].max(8) * if es.is_empty() { 2 } else { 1 };
            } else {
                w[0] = w[0] / 3 + 1;
            }
            if st.dep < st.min {
                // let it come together before the end
                w[9] = w[9] / 3 + 1;
            }
            if es.iter().all(|x| x.1.dep == 0) || st.mode == 2 || (st.mode == 0 && st.dw == 1) {
                w[2] = w[2].min(1);
            }
        }
        let k = self.r.weighted(&w);
        let r = &mut self.r;
        let pick_e = |r: &mut Rng| -> (u8, EState) {
            if es.is_empty() || r.pct(3) {
                (*r.pick(&BUYERS), EState { reg: r.below(st.nreg.max(1) as u64) as u8, ..Default::default() })
            } else {
                es[r.below(es.len() as u64) as usize].clone()
            }
        };
        let creator = e.wallet_of(&st.owner).unwrap_or(1);
        let second = r.pct(15);
        let ix = match k {
            0 => {
                if self.r.pct(88) {
                    // what the whitelist needs comes first
                    if st.wl == 1 && !self.trees.keys().any(|x| x.0 == p && e.prog.contains_key(&e.w.key(K::Mr(p, x.1)))) {
                        return self.merkle(e, p, &st);
                    }
                    if st.wl == 2 && !e.prog.contains_key(&e.w.key(K::Op(creator, OPERATOR))) {
                        return Some(Act::Tx(vec![build::op_create(creator, OPERATOR)]));
                    }
                }
                let ix = self.mk_escrow(e, p, &st)?;
                if self.r.pct(self.p.multi) {
                    if let Some(d) = self.dep_after(e, p, &st, &ix) {
                        return Some(Act::Tx(vec![ix, d]));
                    }
                }
                ix
            }
            1 => {
                let (mut o, mut x) = pick_e(r);
                for _ in 0..2 {
                    if quota(&st, &x) == 0 && r.pct(80) {
                        (o, x) = pick_e(r);
                    }
                }
                let a = self.dep_amount(&st, &x);
                let payer = if self.r.pct(85) { o } else { *self.r.pick(&BUYERS) };
                let d = build::dep(e, p, o, x.reg, payer, a);
                if self.r.pct(self.p.multi) {
                    let a2 = self.dep_amount(&st, &x);
                    let d2 = build::dep(e, p, o, x.reg, payer, a2);
                    return Some(Act::Tx(vec![d, d2]));
                }
                d
            }
            2 => {
                let (o, x) = pick_e(r);
                let a = self.wd_amount(&st, &x);
                build::wd(e, p, o, x.reg, a, second)
            }
            3 => {
                let (o, x) = pick_e(r);
                let ix = build::claim(e, p, o, x.reg, second);
                if r.pct(self.p.multi) {
                    let x2 = if r.pct(50) { ix.clone() } else { build::close(e, p, o, x.reg, o) };
                    return Some(Act::Tx(vec![ix, x2]));
                }
                ix
            }
            4 => {
                let (o, x) = pick_e(r);
                build::refresh(p, o, x.reg)
            }
            5 => {
                let (o, x) = pick_e(r);
                let ix = build::refund(e, p, o, x.reg, second);
                if r.pct(self.p.multi) {
                    let x2 = if r.pct(50) { ix.clone() } else { build::close(e, p, o, x.reg, o) };
                    return Some(Act::Tx(vec![ix, x2]));
                }
                ix
            }
            6 => {
                let a = build::crwd(e, p, creator, second);
                let b = build::fee(e, p, creator, second);
                match r.below(10) {
                    0 => return Some(Act::Tx(vec![a, b])),
                    1 => return Some(Act::Tx(vec![b.clone(), b])),
                    2..=5 => a,
                    _ => b,
                }
            }
            7 => {
                let u = build::unsold(e, p);
                if r.pct(10) {
                    return Some(Act::Tx(vec![u.clone(), u]));
                }
                u
            }
            8 => {
                let (o, x) = pick_e(r);
                let recv = if r.pct(70) { o } else { r.below(WALLETS as u64) as u8 };
                build::close(e, p, o, x.reg, recv)
            }
            9 => return Some(Act::Step(self.time(e, &st))),
            10 => return self.merkle(e, p, &st),
            11 => {
                let c = *r.pick(&[creator, creator, creator, 2, EVIL]);
                let o = *r.pick(&[OPERATOR, OPERATOR, OPERATOR, EVIL, 4, creator, creator, 2]);
                let there = e.prog.contains_key(&e.w.key(K::Op(c, o)));
                if r.pct(if there { 25 } else { 85 }) {
                    build::op_create(c, o)
                } else {
                    build::op_revoke(c, o)
                }
            }
            12 => {
                let there = e.prog.contains_key(&e.w.key(K::Meta(p)));
                if r.pct(if there { 25 } else { 80 }) {
                    let n = r.below(40) as usize;
                    // not only ASCII
                    let base = if r.pct(60) { "https://presale.example/".repeat(3) } else { "https://präsale.例え/é".repeat(4) };
                    build::meta_create(p, creator, &base.chars().take(n).collect::<String>())
                } else {
                    build::meta_close(p, creator, r.below(WALLETS as u64) as u8)
                }
            }
            _ => {
                let there = e.prog.contains_key(&e.w.key(K::Args(p)));
                if r.pct(if there { 75 } else { 20 }) {
                    build::close_args(p, creator)
                } else {
                    build::args(p, (1 + (r.next() >> 1) as u128) << r.below(65), r.below(2) as u8, creator, PAYER)
                }
            }
        };
        Some(Act::Tx(vec![ix]))
    }

    fn create(&mut self, e: &Engine, i: u8) -> Act {
        let now = e.now();
        let slot = e.w.cfg.presales[i as usize].clone();
        self.init_fails[i as usize] += 1;
        let twin = match &self.plan {
            Some((c, _, _)) if self.p.twin && now + 60 <= c.end && now <= c.start && self.r.pct(85) => self.plan.clone(),
            _ => None,
        };
        let (mut c, mut q, mut dw) = match twin {
            Some(x) => x,
            None => {
                let x = self.good_cfg(now);
                self.plan = Some(x.clone());
                x
            }
        };
        if self.r.pct(self.p.badcfg) {
            // mostly break exactly one rule (or sit right on its edge), so that no other check hides it
            let want = self.r.pct(80);
            for _ in 0..40 {
                let (mut c2, mut q2, mut dw2) = (c.clone(), q, dw);
                self.spoil(&mut c2, &mut q2, &mut dw2, now);
                let qq = if c2.mode == 0 { Some(q2) } else { None };
                let n = if c2.mode == 0 && q2 == 0 { 2 } else { cfg_violations(&c2, now, qq).len() };
                if !want || n == 1 || (n == 0 && self.r.pct(15)) {
                    (c, q, dw) = (c2, q2, dw2);
                    break;
                }
            }
        }
        let have_args = e.prog.get(&e.w.key(K::Args(i)));
        let init = build::init(e, i, c.clone(), slot.creator, PAYER);
        if c.mode == 0 {
            match have_args {
                None => {
                    let a = build::args(i, q, dw, slot.creator, PAYER);
                    if self.r.pct(50) {
                        return Act::Tx(vec![a, init]);
                    }
                    self.queue.push(Step::Tx { ixs: vec![init], fail: None });
                    return Act::Tx(vec![a]);
                }
                Some(Prg::Args(g)) => {
                    // left over parameters: replace them first
                    if g.q != q && self.r.pct(80) {
                        let o = e.wallet_of(&g.owner).unwrap_or(slot.creator);
                        let a = build::args(i, q, dw, slot.creator, PAYER);
                        self.queue.push(Step::Tx { ixs: vec![init], fail: None });
                        self.queue.push(Step::Tx { ixs: vec![a], fail: None });
                        return Act::Tx(vec![build::close_args(i, o)]);
                    }
                }
                _ => {}
            }
        }
        Act::Tx(vec![init])
    }

    fn mk_escrow(&mut self, e: &Engine, p: u8, st: &PState) -> Option<IxSpec> {
        let r = &mut self.r;
        let mut owner = if r.pct(90) { *r.pick(&BUYERS) } else { *r.pick(&[EVIL, 1, 2]) };
        if st.wl == 0 && e.bank.get(&e.w.key(K::Esc(p, owner, 0))).is_some() && r.pct(80) {
            owner = *r.pick(&[4u8, 5, 6, EVIL, 1, 2]);
        }
        let payer = if r.pct(70) { owner } else { PAYER };
        let creator = e.wallet_of(&st.owner).unwrap_or(1);
        let route = if r.pct(92) { st.wl } else { r.below(3) as u8 };
        let reg = if r.pct(95) { r.below(st.nreg.max(1) as u64) as u8 } else { r.below(7) as u8 };
        let rr = st.regs.get(reg as usize).cloned().unwrap_or_default();
        let cap = match r.below(24) {
            0..=2 => rr.min,
            3..=7 => rr.max,
            8 => rr.min.saturating_sub(1),
            9 => rr.max.saturating_add(1),
            10 => 0,
            _ => r.range(rr.min, rr.max),
        };
        Some(match route {
            0 => build::esc(p, owner, payer),
            2 => {
                let op = if r.pct(88) { OPERATOR } else { *r.pick(&[EVIL, 4]) };
                let c = if r.pct(92) { creator } else { *r.pick(&[1u8, 2, EVIL]) };
                let (mut c, mut op) = (c, op);
                if r.pct(12) {
                    // any grant there is, whoever gave it to whom
                    let all: Vec<(u8, u8)> = (0..WALLETS as u8)
                        .flat_map(|c| (0..WALLETS as u8).map(move |o| (c, o)))
                        .filter(|(c, o)| e.prog.contains_key(&e.w.key(K::Op(*c, *o))))
                        .collect();
                    if !all.is_empty() {
                        (c, op) = *r.pick(&all);
                    }
                }
                build::esc_op(p, owner, c, op, payer, reg, cap)
            }
            _ => {
                let foreign = r.pct(if self.p.cross >= 50 { 25 } else { 5 });
                let vs: Vec<(u8, u64)> = self.trees.keys().copied().filter(|(x, _)| (*x == p) != foreign).collect();
                if vs.is_empty() {
                    build::esc_mr(p, owner, r.below(3), payer, reg, cap, &[])
                } else {
                    let key = vs[r.below(vs.len() as u64) as usize];
                    let tr = self.trees[&key].clone();
                    let mut i = r.below(tr.entries.len() as u64) as usize;
                    for _ in 0..3 {
                        let (w, g, _) = tr.entries[i];
                        if e.bank.get(&e.w.key(K::Esc(p, w, g))).is_none() {
                            break;
                        }
                        i = r.below(tr.entries.len() as u64) as usize;
                    }
                    let (mut w, mut g, mut c) = tr.entries[i];
                    let mut proof = tree_proof(&tr.levels, i);
                    let mut ver = key.1;
                    if r.pct(30) {
                        match r.below(8) {
                            0 => c = c.wrapping_add(1),
                            1 => c = c.saturating_sub(1),
                            2 => g = (g + 1) % st.nreg.max(1),
                            3 => w = *r.pick(&[4u8, 5, 6, EVIL]),
                            4 => {
                                proof.pop();
                            }
                            5 => proof.push([r.below(256) as u8; 32]),
                            6 => ver = r.below(4),
                            _ => {
                                if proof.len() > 1 {
                                    proof.swap(0, 1)
                                } else if let Some(x) = proof.first_mut() {
                                    x[r.below(32) as usize] ^= 1;
                                }
                            }
                        }
                    }
                    let mut ix = build::esc_mr(p, w, ver, payer, g, c, &proof);
                    if foreign {
                        // a listed buyer of a sibling presale shows that presale's list
                        for a in ix.acc.iter_mut() {
                            if let K::Mr(_, v) = a.0 {
                                a.0 = K::Mr(key.0, v);
                            }
                        }
                    }
                    ix
                }
            }
        })
    }

    fn dep_after(&mut self, e: &Engine, p: u8, st: &PState, ix: &IxSpec) -> Option<IxSpec> {
        let (o, reg, cap) = match (&ix.op, ix.acc[1].0) {
            (Op::Esc, K::Esc(_, o, r)) => (o, r, st.regs[0].max),
            (Op::EscOp { cap, .. }, K::Esc(_, o, r)) | (Op::EscMr { cap, .. }, K::Esc(_, o, r)) => (o, r, *cap),
            _ => return None,
        };
        if reg as usize >= 5 {
            return None;
        }
        let x = EState { reg, cap, ..Default::default() };
        let a = self.dep_amount(st, &x);
        Some(build::dep(e, p, o, reg, o, a))
    }

    fn dep_amount(&mut self, st: &PState, x: &EState) -> u64 {
        let rg = st.regs[(x.reg as usize).min(4)].clone();
        let mut y = x.clone();
        if y.cap == 0 {
            y.cap = rg.max;
        }
        let mut q = quota(st, &y);
        let r = &mut self.r;
        if q == 0 && r.pct(80) {
            q = rg.min.max(1);
        }
        if r.pct(self.p.fill) && st.mode != 1 {
            return match r.below(5) {
                0 => q,
                1 => u64::MAX,
                2 => q.saturating_sub(r.below(3)),
                _ => r.range(q / 2, q),
            };
        }
        if st.mode == 1 && r.pct(self.p.oversub) {
            return match r.below(3) {
                0 => q,
                _ => r.range(q / 3, q),
            };
        }
        match r.below(12) {
            0 => 0,
            1 => 1,
            2 => rg.min.saturating_sub(x.dep),
            3 => rg.min.saturating_sub(x.dep).saturating_sub(1),
            4 => rg.max.saturating_sub(x.dep),
            5 => rg.max.saturating_sub(x.dep).saturating_add(1),
            6 => q.saturating_add(1),
            7 => st.min.saturating_sub(st.dep),
            8 => st.max.saturating_sub(st.dep),
            9 if st.mode == 0 && st.q > 0 => {
                let k = 1 + r.below(bought(st.q, q).min(1 << 40) as u64 + 1);
                sat(cost(st.q, k as u128)).saturating_sub(r.below(2))
            }
            _ => {
                let hi = q.max(1);
                r.range(1, hi.min(hi / 3 + 2))
            }
        }
    }

    fn wd_amount(&mut self, st: &PState, x: &EState) -> u64 {
        let r = &mut self.r;
        let rg = &st.regs[(x.reg as usize).min(4)];
        match r.below(9) {
            0 => 0,
            1 => 1,
            2 | 3 => x.dep,
            4 => x.dep.saturating_add(1),
            5 => x.dep.saturating_sub(rg.min),
            6 => x.dep.saturating_sub(rg.min).saturating_add(1),
            7 => x.dep.saturating_sub(1),
            _ => r.range(1, x.dep.max(1)),
        }
    }

    fn time(&mut self, e: &Engine, st: &PState) -> Step {
        let now = e.now();
        let r = &mut self.r;
        let marks = [st.start, st.end, st.imm_ts, st.vest_start, st.vest_end, st.vest_start + st.vest / 2, st.vest_start + st.vest / 3];
        let ph = progress(st, now);
        if ph != NOT_STARTED && ph != ONGOING && r.pct(2) {
            // nobody comes back for a very long time
            return Step::Time(r.below(200 * 31_557_600));
        }
        if ph == NOT_STARTED && r.pct(70) {
            let d = *r.pick(&[0u64, 0, 1]);
            return Step::Time((st.start + d).saturating_sub(now + r.pct(20) as u64));
        }
        if ph == ONGOING && r.pct(if st.dep < st.min { 85 } else { 65 }) {
            return Step::Time(r.below(((st.end - now) / 12).max(2)));
        }
        if r.pct(60) {
            let m = *r.pick(&marks);
            let m = match r.below(3) {
                0 => m.saturating_sub(1),
                1 => m,
                _ => m + 1,
            };
            if m >= now {
                return Step::Time(m - now);
            }
        }
        Step::Time(match r.below(4) {
            0 => r.below(3),
            1 => r.below(100),
            2 => r.below(86400),
            _ => r.below((st.vest / 4).max(1) + 1),
        })
    }

    fn merkle(&mut self, e: &Engine, p: u8, st: &PState) -> Option<Act> {
        let creator = e.wallet_of(&st.owner).unwrap_or(1);
        let r = &mut self.r;
        let there: Vec<u64> = self.trees.keys().filter(|x| x.0 == p && e.prog.contains_key(&e.w.key(K::Mr(p, x.1)))).map(|x| x.1).collect();
        if r.pct(if there.is_empty() { 8 } else { 30 }) {
            let v = if there.is_empty() || r.pct(15) { r.below(4) } else { *r.pick(&there) };
            return Some(Act::Tx(vec![build::mr_close(p, v, creator, r.below(WALLETS as u64) as u8)]));
        }
        let version = match r.below(12) {
            0 => (1 << 32) + r.below(3),
            1 => u64::MAX,
            2 => 256,
            _ => r.below(4),
        };
        let n = 1 + r.below(9) as usize;
        let mut entries = vec![];
        for _ in 0..n {
            let reg = if r.pct(95) { r.below(st.nreg.max(1) as u64) as u8 } else { 5 };
            let rg = st.regs.get(reg as usize).cloned().unwrap_or_default();
            let cap = match r.below(8) {
                0 => rg.min,
                1 => rg.max,
                2 if r.pct(30) => rg.max.saturating_add(1),
                3 if r.pct(40) => if r.pct(50) { 0 } else { rg.min.saturating_sub(1) },
                _ => r.range(rg.min.max(1), rg.max.max(1)),
            };
            entries.push((*r.pick(&[4u8, 5, 6, 4, 5, 6, EVIL, 1]), reg, cap));
        }
        let leaves: Vec<[u8; 32]> = entries.iter().map(|(w, g, c)| leaf(&e.w.key(K::W(*w)), *g, *c)).collect();
        let mut levels = tree(&leaves);
        if r.pct(20) {
            // part of a far larger list: up to 2^24 entries, of which only the siblings on the way up are known
            for _ in 0..r.below(21) {
                let mut x = [0u8; 32];
                for b in x.chunks_mut(8) {
                    b.copy_from_slice(&r.next().to_le_bytes());
                }
                let l = levels.last_mut().unwrap();
                l.push(x);
                let j = join(&l[0], &x);
                levels.push(vec![j]);
            }
        }
        let root = levels.last().unwrap()[0];
        // replace the remembered tree only if the address is free
        if e.prog.get(&e.w.key(K::Mr(p, version))).is_none() {
            self.trees.insert((p, version), MTree { entries, levels });
        }
        let listed = root;
        let mut root = root;
        if r.pct(7) {
            // published with one bit wrong: the list's proofs must not pass
            let bit = r.below(256) as usize;
            root[bit / 8] ^= 1 << (bit % 8);
        }
        self.queue.push(Step::Tx { ixs: vec![build::mr_create(p, creator, root, version)], fail: None });
        Some(Act::Step(Step::Root { root: hex(&listed), leaves: leaves.iter().map(|x| hex(x)).collect() }))
    }

    // ------------------------------------------------------------ adversary

    /// Change one thing about a valid instruction. May need a forged account to be made first.
    fn mutate(&mut self, e: &Engine, ix: &mut IxSpec) -> Option<Step> {
        let np = e.w.cfg.presales.len() as u64;
        let r = &mut self.r;
        let sg = ix.op.signer_slots();
        if np > 1 && r.pct(self.p.cross) && cross(e, r, ix) {
            return None;
        }
        let how = r.below(12);
        match how {
            0 | 1 if !sg.is_empty() => {
                // signature left out
                let i = *r.pick(sg);
                ix.acc[i].1 = false;
                return None;
            }
            2 | 3 if !sg.is_empty() => {
                // someone else signs instead
                let i = *r.pick(sg);
                if let K::W(_) = ix.acc[i].0 {
                    ix.acc[i] = (K::W(*r.pick(&[EVIL, EVIL, 2, 4])), true);
                    // and wants the money
                    if r.pct(70) {
                        for a in ix.acc.iter_mut() {
                            if let K::Tok(_, m) | K::Tok2(_, m) = a.0 {
                                a.0 = K::Tok(EVIL, m);
                            }
                        }
                    }
                    return None;
                }
            }
            4 if ix.op.slices() => {
                let (bm, qm) = (e.w.cfg.presales[0].bm, e.w.cfg.presales[0].qm);
                let m = *r.pick(&[bm, qm]);
                ix.hook = match r.below(6) {
                    4 => match ix.hook {
                        HookArg::Mint { m, quote } => HookArg::Dup { m, quote },
                        h => h,
                    },
                    5 => match ix.hook {
                        HookArg::None => HookArg::Zero { quote: ix.op.quote_slice().unwrap_or(r.pct(50)) },
                        HookArg::Mint { m, quote } => HookArg::ZeroMint { m, quote },
                        h => h,
                    },
                    0 => HookArg::None,
                    1 => HookArg::Mint { m, quote: true },
                    2 => HookArg::Mint { m, quote: false },
                    _ => HookArg::Long { m, quote: r.pct(50) },
                };
                // the state account of a hook must exist
                if let HookArg::Mint { m, .. } | HookArg::Long { m, .. } = ix.hook {
                    if !e.w.cfg.mints[m as usize].hook() {
                        ix.hook = HookArg::None;
                    }
                }
                return None;
            }
            5 if !ix.rem.is_empty() => {
                if r.pct(25) {
                    ix.rem.pop();
                    return None;
                }
                let i = r.below(ix.rem.len() as u64) as usize;
                let k = ix.rem[i];
                ix.rem[i] = alt(e, r, k, np);
                return None;
            }
            6 | 7 | 8 => {
                // look-alike account
                let slots: Vec<usize> = (0..ix.acc.len())
                    .filter(|i| {
                        matches!(
                            ix.acc[*i].0,
                            K::P(_) | K::Esc(..) | K::Op(..) | K::Mr(..) | K::Args(_) | K::Meta(_) | K::BV(_) | K::QV(_) | K::M(_)
                        )
                    })
                    .collect();
                if !slots.is_empty() {
                    let i = *r.pick(&slots);
                    let of = ix.acc[i].0;
                    self.fakes = (self.fakes + 1) % 8;
                    let at = self.fakes;
                    let mut src = of;
                    let mut patch = vec![];
                    let vic = ix.acc[0].0;
                    match of {
                        K::P(_) => {
                            if r.pct(50) {
                                patch.push((8, K::W(EVIL)));
                            }
                        }
                        K::Esc(..) => {
                            patch.push((40, K::W(EVIL)));
                            if let K::P(_) = vic {
                                patch.push((8, vic));
                            }
                        }
                        K::Op(..) => {
                            // copy any existing grant, claim it is for this creator
                            for (c, o) in [(1, OPERATOR), (2, OPERATOR), (EVIL, EVIL)] {
                                if e.bank.get(&e.w.key(K::Op(c, o))).is_some() {
                                    src = K::Op(c, o);
                                }
                            }
                            patch.push((8, K::W(EVIL)));
                        }
                        K::Mr(p, _) => patch.push((48, K::P(p))),
                        _ => {}
                    }
                    ix.acc[i].0 = K::Fake(at);
                    if r.pct(60) {
                        for s in sg {
                            if let K::W(_) = ix.acc[*s].0 {
                                ix.acc[*s] = (K::W(EVIL), true);
                            }
                        }
                    }
                    return Some(Step::Forge { at, of: src, patch });
                }
            }
            _ => {}
        }
        // another account in one slot
        let i = r.below(ix.acc.len() as u64) as usize;
        let (k, s) = ix.acc[i];
        let n = alt(e, r, k, np);
        let can_sign = matches!(n, K::W(_) | K::Base(_));
        ix.acc[i] = (n, s && can_sign);
        None
    }
}

/// Swap in the matching account of a sibling presale, in one place (sometimes two).
fn cross(e: &Engine, r: &mut Rng, ix: &mut IxSpec) -> bool {
    let swap = |r: &mut Rng, k: K| -> Option<K> {
        let p = match k {
            K::P(p) | K::BV(p) | K::QV(p) | K::Esc(p, _, _) | K::Mr(p, _) | K::Args(p) | K::Meta(p) => p,
            _ => return None,
        };
        let mut c = vec![];
        for q in (0..e.w.cfg.presales.len() as u8).filter(|q| *q != p) {
            let ks: Vec<K> = match k {
                K::P(_) => vec![K::P(q)],
                K::BV(_) => vec![K::BV(q)],
                K::QV(_) => vec![K::QV(q)],
                K::Esc(_, w, _) => (0..5).map(|g| K::Esc(q, w, g)).collect(),
                K::Mr(..) => (0..4).map(|v| K::Mr(q, v)).collect(),
                K::Args(_) => vec![K::Args(q)],
                K::Meta(_) => vec![K::Meta(q)],
                _ => vec![],
            };
            c.extend(ks.into_iter().filter(|k| e.bank.get(&e.w.key(*k)).is_some()));
        }
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    };
    let (na, nr) = (ix.acc.len(), ix.rem.len());
    let mut c: Vec<(usize, K)> = vec![];
    for i in 0..na + nr {
        let k = if i < na { ix.acc[i].0 } else { ix.rem[i - na] };
        if let Some(n) = swap(r, k) {
            c.push((i, n));
        }
    }
    if c.is_empty() {
        return false;
    }
    for _ in 0..if r.pct(20) { 2 } else { 1 } {
        let (i, n) = *r.pick(&c);
        if i < na {
            ix.acc[i].0 = n;
        } else {
            ix.rem[i - na] = n;
        }
    }
    true
}

fn self_amount(r: &mut Rng, bits: u32) -> u64 {
    let b = r.range(bits.saturating_sub(6).max(2) as u64, (bits as u64).max(2)) as u32;
    r.range(1u64 << (b - 1), (1u64 << b) - 1)
}

fn sat(x: ruint::aliases::U256) -> u64 {
    if x > ruint::aliases::U256::from(u64::MAX) {
        u64::MAX
    } else {
        x.to::<u64>()
    }
}

/// a different account that could be passed in the place of `k`
fn alt(e: &Engine, r: &mut Rng, k: K, np: u64) -> K {
    let p2 = r.below(np) as u8;
    let w2 = *r.pick(&[EVIL, EVIL, 1, 2, 4, 5, 6]);
    let bm = e.w.cfg.presales[0].bm;
    let qm = e.w.cfg.presales[0].qm;
    if r.pct(12) {
        // another kind altogether
        return *r.pick(&[K::P(0), K::Esc(0, 4, 0), K::Mr(0, 0), K::Op(1, OPERATOR), K::Args(0), K::Meta(0), K::M(0), K::QV(0), K::W(EVIL)]);
    }
    match k {
        K::W(_) => K::W(w2),
        K::M(m) => K::M((m + 1 + r.below(2) as u8) % e.w.cfg.mints.len() as u8),
        K::Tok(w, m) | K::Tok2(w, m) => match r.below(6) {
            0 => K::Tok(w2, m),
            1 => K::Tok2(w, m),
            2 => K::Tok(w, if m == bm { qm } else { bm }),
            3 => K::QV(p2),
            4 => K::BV(p2),
            _ => K::Tok2(w2, m),
        },
        K::P(_) => K::P(p2),
        K::BV(p) => match r.below(4) {
            0 => K::QV(p),
            1 => K::Tok(EVIL, bm),
            _ => K::BV(p2),
        },
        K::QV(p) => match r.below(4) {
            0 => K::BV(p),
            1 => K::Tok(EVIL, qm),
            _ => K::QV(p2),
        },
        K::Base(b) => K::Base((b + 1) % 3),
        K::Auth => K::W(EVIL),
        K::Esc(p, w, g) => match r.below(3) {
            0 => K::Esc(p2, w, g),
            1 => K::Esc(p, w2, g),
            _ => K::Esc(p, w, (g + 1) % 3),
        },
        K::Mr(p, v) => {
            if r.pct(60) {
                K::Mr(p2, r.below(4))
            } else {
                K::Mr(p, (v.wrapping_add(1)) % 4)
            }
        }
        K::Op(c, o) => match r.below(4) {
            0 => K::Op(EVIL, EVIL),
            1 => K::Op(w2, o),
            2 => K::Op(2, OPERATOR),
            _ => K::Op(c, w2),
        },
        K::Meta(_) => K::Meta(p2),
        K::Args(_) => K::Args(p2),
        K::TokP => K::Tok22P,
        K::Tok22P => K::TokP,
        K::Memo => K::TokP,
        x => x,
    }
}

pub enum Act {
    Tx(Vec<IxSpec>),
    Step(Step),
}
