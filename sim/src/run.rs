//! One simulated run: generate, execute, judge; and the same from a recorded trace.
use crate::abi::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::*;
use crate::tree::{self, TreeSpec};
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Trace {
    pub property: String,
    /// the number every choice of the original run was derived from
    pub seed: u64,
    pub world: Option<WorldCfg>,
    pub steps: Vec<Step>,
    pub tree: Option<TreeSpec>,
    pub class: String,
    pub msg: String,
}

pub struct Done {
    pub trace: Trace,
    pub viol: Option<Viol>,
    pub foreign: Vec<Viol>,
    pub stats: Stats,
    pub log: u64,
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(index.wrapping_add(77)))
}

/// Generate and execute one run.
pub fn simulate(prop: &str, seed: u64, verbose: bool) -> Done {
    let mut rng = Rng::new(seed);
    if prop == "C25" {
        let spec = tree::generate(&mut rng);
        let (viol, stats, log) = tree::judge(&spec, verbose);
        return Done {
            trace: Trace {
                property: prop.into(),
                seed,
                world: None,
                steps: vec![],
                tree: Some(spec),
                class: viol.as_ref().map(|v| v.class.clone()).unwrap_or_default(),
                msg: viol.as_ref().map(|v| v.msg.clone()).unwrap_or_default(),
            },
            viol,
            foreign: vec![],
            stats,
            log,
        };
    }
    let p = prof(prop, &mut rng);
    let bits = rng.range(p.bits.0, p.bits.1) as u32;
    let cfg = gen_world(&mut rng, &p, bits);
    let w = World::new(cfg.clone());
    let mut e = Engine::new(&w, tag_of(prop));
    e.verbose = verbose;
    let n = rng.range(p.steps.0, p.steps.1);
    let mut g = Gen::new(rng.fork(), p, bits, cfg.presales.len());
    let mut steps = vec![];
    let mut viol = None;
    for i in 0..=n {
        let last = i == n || g.idle > 8;
        let s = if last || rng.chance(1, 45) {
            Step::DrainPair { a: rng.next() >> 16, b: rng.next() >> 16, late: *rng.pick(&[0, 0, 1, 1000, 100_000_000]) }
        } else {
            g.next(&e)
        };
        steps.push(s.clone());
        viol = e.step(&s);
        if last || viol.is_some() || e.foreign.len() > 30 {
            break;
        }
    }
    let mut log = e.log;
    if viol.is_none() && prop == "C24" {
        let (v, l) = meta(&w, &steps, verbose);
        viol = v;
        log ^= l;
        e.stats.hit("meta.comparisons");
    }
    Done {
        trace: Trace {
            property: prop.into(),
            seed,
            world: Some(cfg.clone()),
            steps,
            tree: None,
            class: viol.as_ref().map(|v| v.class.clone()).unwrap_or_default(),
            msg: viol.as_ref().map(|v| v.msg.clone()).unwrap_or_default(),
        },
        viol,
        foreign: std::mem::take(&mut e.foreign),
        stats: std::mem::take(&mut e.stats),
        log,
    }
}

/// Execute a recorded trace.
pub fn replay(t: &Trace, verbose: bool) -> (Option<Viol>, u64) {
    if let Some(spec) = &t.tree {
        let (v, _, l) = tree::judge(spec, verbose);
        return (v, l);
    }
    let w = World::new(t.world.clone().unwrap());
    let mut e = Engine::new(&w, tag_of(&t.property));
    e.verbose = verbose;
    for s in &t.steps {
        if let Some(v) = e.step(s) {
            return (Some(v), e.log);
        }
    }
    if t.property == "C24" {
        let (v, l) = meta(&w, &t.steps, verbose);
        return (v, l ^ e.log);
    }
    (None, e.log)
}

// ---------------------------------------------------------------- the same history without outsiders

fn outsider(s: &Step) -> bool {
    match s {
        Step::Donate { .. } | Step::Lamports { .. } | Step::Forge { .. } => true,
        Step::Tx { ixs, .. } => ixs.iter().all(|i| matches!(i.op, Op::Refresh)),
        _ => false,
    }
}
fn mentions_evil(s: &Step) -> bool {
    match s {
        Step::Tx { ixs, .. } => ixs.iter().any(|i| {
            i.acc.iter().map(|a| &a.0).chain(&i.rem).any(|k| {
                matches!(k, K::W(EVIL) | K::Tok(EVIL, _) | K::Tok2(EVIL, _) | K::Fake(_) | K::Op(EVIL, _) | K::Op(_, EVIL))
                    || matches!(k, K::Esc(_, EVIL, _))
            })
        }),
        _ => false,
    }
}

/// What each party has and is recorded to have (donations and refresh bookkeeping aside).
fn view(e: &Engine) -> BTreeMap<String, u64> {
    let mut o = BTreeMap::new();
    for m in 0..e.w.cfg.mints.len() as u8 {
        for w in 0..WALLETS {
            if w == EVIL {
                continue;
            }
            o.insert(format!("wallet{w}.mint{m}"), e.tok_amount(&e.w.key(K::Tok(w, m))));
            o.insert(format!("wallet{w}.mint{m}.second"), e.tok_amount(&e.w.key(K::Tok2(w, m))));
        }
    }
    for (k, v) in &e.prog {
        let l = e.w.label(k);
        match v {
            Prg::Escrow(x) => {
                for (f, y) in [("dep", x.dep), ("claimed", x.claimed), ("fee", x.fee), ("cap", x.cap), ("refunded", x.refunded as u64)] {
                    o.insert(format!("{l}.{f}"), y);
                }
            }
            Prg::Presale(p) => {
                for (f, y) in [
                    ("dep", p.dep),
                    ("claimed", p.claimed),
                    ("refunded", p.refunded),
                    ("fee", p.fee),
                    ("end", p.end),
                    ("vest_end", p.vest_end),
                    ("escrows", p.escrows),
                    ("creator_withdrawn", p.creator_withdrawn as u64),
                    ("fee_collected", p.fee_collected as u64),
                    ("unsold_done", p.unsold_done as u64),
                ] {
                    o.insert(format!("{l}.{f}"), y);
                }
            }
            _ => {
                o.insert(l, 1);
            }
        }
    }
    o
}

fn meta(w: &World, steps: &[Step], verbose: bool) -> (Option<Viol>, u64) {
    let bad = |class: &str, msg: String| Viol { tags: t(&[24]), class: format!("meta:{class}"), msg };
    // with everything
    let run = |keep: &dyn Fn(usize, &Step) -> bool| -> (Vec<Option<bool>>, BTreeMap<String, u64>, BTreeMap<String, u64>, u64) {
        let mut e = Engine::new(w, 0);
        e.verbose = verbose;
        let mut ok = vec![];
        for (i, s) in steps.iter().enumerate() {
            // a fault on the n-th call of a transaction is not the same fault when accounts were pre-funded
            if matches!(s, Step::DrainPair { .. } | Step::Tx { fail: Some(_), .. }) || !keep(i, s) {
                ok.push(None);
                continue;
            }
            e.step(s);
            ok.push(Some(e.last_ok));
        }
        let v = view(&e);
        e.step(&Step::Drain { order: 5, late: 0 });
        (ok, v, e.outcome.clone(), e.log)
    };
    let (ok_a, va, oa, la) = run(&|_, _| true);
    let rej = |i: usize| ok_a[i] == Some(false);
    // without outsiders; without outsiders and without rejected transactions
    let mut log = la;
    for variant in 0..2 {
        let (ok_b, vb, ob, lb) = run(&|i, s| {
            !(outsider(s) || (rej(i) && matches!(s, Step::Tx { .. }) && (variant == 1 || mentions_evil(s))))
        });
        log = mix(log ^ lb);
        for i in 0..steps.len() {
            if let (Some(a), Some(b)) = (ok_a[i], ok_b[i]) {
                if a != b {
                    let what = if b { "is blocked by" } else { "only works thanks to" };
                    return (Some(bad("accept", format!("step {i} {what} actions of outsiders: {:?}", steps[i]))), log);
                }
            }
        }
        if let Some(d) = outcome_diff(&va, &vb) {
            return (Some(bad("state", format!("outsiders changed {d}"))), log);
        }
        if let Some(d) = outcome_diff(&oa, &ob) {
            return (Some(bad("outcome", format!("outsiders changed the final {d}"))), log);
        }
    }
    (None, log)
}

// ---------------------------------------------------------------- minimisation

fn head(c: &str) -> &str {
    c
}

/// Smallest trace found that still shows a violation of the same class.
pub fn shrink(t0: &Trace, budget: std::time::Duration) -> Trace {
    let t_start = std::time::Instant::now();
    let mut best = t0.clone();
    let class = t0.class.clone();
    let same = |t: &Trace| -> Option<Viol> { replay(t, false).0.filter(|v| head(&v.class) == head(&class)) };
    if let Some(spec) = &t0.tree {
        let s = tree::shrink(spec, &class, budget);
        best.tree = Some(s);
        if let Some(v) = same(&best) {
            best.msg = v.msg;
        }
        return best;
    }
    // drop chunks of steps, then single steps
    let mut n = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() {
            if t_start.elapsed() > budget {
                return best;
            }
            let mut c = best.clone();
            let hi = (i + n).min(c.steps.len());
            c.steps.drain(i..hi);
            if let Some(v) = same(&c) {
                c.msg = v.msg;
                best = c;
                any = true;
            } else {
                i += n;
            }
        }
        if n == 1 && !any {
            break;
        }
        if n > 1 {
            n /= 2;
        }
    }
    // simplify the remaining ones
    let mut i = 0;
    while i < best.steps.len() {
        let mut alts: Vec<Step> = vec![];
        match &best.steps[i] {
            Step::Tx { ixs, fail } => {
                if ixs.len() > 1 {
                    for j in 0..ixs.len() {
                        let mut x = ixs.clone();
                        x.remove(j);
                        alts.push(Step::Tx { ixs: x, fail: *fail });
                    }
                }
                if fail.is_some() {
                    alts.push(Step::Tx { ixs: ixs.clone(), fail: None });
                }
                for j in 0..ixs.len() {
                    if let Op::Init(c) = &ixs[j].op {
                        if c.regs.len() > 1 {
                            let mut x = ixs.clone();
                            if let Op::Init(c) = &mut x[j].op {
                                c.regs.pop();
                            }
                            alts.push(Step::Tx { ixs: x, fail: *fail });
                        }
                    }
                }
            }
            Step::DrainPair { a, late, .. } => {
                alts.push(Step::Drain { order: *a, late: *late });
                alts.push(Step::Drain { order: 1, late: 0 });
            }
            _ => {}
        }
        for a in alts {
            if t_start.elapsed() > budget {
                return best;
            }
            let mut c = best.clone();
            c.steps[i] = a;
            if let Some(v) = same(&c) {
                c.msg = v.msg;
                best = c;
                break;
            }
        }
        i += 1;
    }
    best
}
