//! Honest clients: how a well-behaved wallet builds each instruction.
use crate::abi::*;
use crate::exec::Engine;
use crate::world::World;

fn tp(w: &World, m: u8) -> K {
    if w.cfg.mints[m as usize].t22() {
        K::Tok22P
    } else {
        K::TokP
    }
}
pub fn hook(w: &World, m: u8, quote: bool) -> HookArg {
    if w.cfg.mints[m as usize].hook() {
        HookArg::Mint { m, quote }
    } else {
        HookArg::None
    }
}
fn ix(op: Op, acc: Vec<K>, rem: Vec<K>, hook: HookArg) -> IxSpec {
    let sg = op.signer_slots();
    let acc = acc.into_iter().enumerate().map(|(i, k)| (k, sg.contains(&i))).collect();
    IxSpec { op, acc, rem, hook }
}
fn mints(e: &Engine, p: u8) -> (u8, u8) {
    let s = &e.w.cfg.presales[p as usize];
    (s.bm, s.qm)
}
fn tk(w: u8, m: u8, second: bool) -> K {
    if second {
        K::Tok2(w, m)
    } else {
        K::Tok(w, m)
    }
}
pub fn args(p: u8, q: u128, dw: u8, owner: u8, payer: u8) -> IxSpec {
    ix(
        Op::Args { presale: K::P(p), q: q.to_string(), dw },
        vec![K::Args(p), K::W(owner), K::W(payer), K::Sys],
        vec![],
        HookArg::None,
    )
}
pub fn close_args(p: u8, owner: u8) -> IxSpec {
    ix(Op::CloseArgs, vec![K::Args(p), K::W(owner)], vec![], HookArg::None)
}
pub fn init(e: &Engine, p: u8, c: InitCfg, creator: u8, payer: u8) -> IxSpec {
    let (bm, qm) = mints(e, p);
    let base = e.w.cfg.presales[p as usize].base;
    let rem = if c.mode == 0 { vec![K::Args(p)] } else { vec![] };
    ix(
        Op::Init(c),
        vec![
            K::M(bm),
            K::P(p),
            K::Auth,
            K::M(qm),
            K::BV(p),
            K::QV(p),
            K::Tok(payer, bm),
            K::W(creator),
            K::Base(base),
            K::W(payer),
            tp(e.w, bm),
            tp(e.w, qm),
            K::Sys,
        ],
        rem,
        hook(e.w, bm, false),
    )
}
pub fn mr_create(p: u8, creator: u8, root: [u8; 32], version: u64) -> IxSpec {
    ix(
        Op::MrCreate { root: hex(&root), version },
        vec![K::P(p), K::Mr(p, version), K::W(creator), K::Sys],
        vec![],
        HookArg::None,
    )
}
pub fn mr_close(p: u8, version: u64, creator: u8, recv: u8) -> IxSpec {
    ix(Op::MrClose, vec![K::P(p), K::Mr(p, version), K::W(recv), K::W(creator)], vec![], HookArg::None)
}
pub fn esc(p: u8, owner: u8, payer: u8) -> IxSpec {
    ix(Op::Esc, vec![K::P(p), K::Esc(p, owner, 0), K::W(owner), K::W(payer), K::Sys], vec![], HookArg::None)
}
pub fn esc_op(p: u8, owner: u8, creator: u8, operator: u8, payer: u8, reg: u8, cap: u64) -> IxSpec {
    ix(
        Op::EscOp { reg, cap },
        vec![K::P(p), K::Esc(p, owner, reg), K::W(owner), K::Op(creator, operator), K::W(operator), K::W(payer), K::Sys],
        vec![],
        HookArg::None,
    )
}
pub fn esc_mr(p: u8, owner: u8, version: u64, payer: u8, reg: u8, cap: u64, proof: &[[u8; 32]]) -> IxSpec {
    ix(
        Op::EscMr { reg, cap, proof: proof.iter().map(|x| hex(x)).collect() },
        vec![K::P(p), K::Esc(p, owner, reg), K::W(owner), K::Mr(p, version), K::W(payer), K::Sys],
        vec![],
        HookArg::None,
    )
}
pub fn op_create(creator: u8, operator: u8) -> IxSpec {
    ix(Op::OpCreate, vec![K::Op(creator, operator), K::W(operator), K::W(creator), K::Sys], vec![], HookArg::None)
}
pub fn op_revoke(creator: u8, operator: u8) -> IxSpec {
    ix(Op::OpRevoke, vec![K::Op(creator, operator), K::W(creator)], vec![], HookArg::None)
}
pub fn dep(e: &Engine, p: u8, owner: u8, reg: u8, payer: u8, amount: u64) -> IxSpec {
    let (_, qm) = mints(e, p);
    ix(
        Op::Dep(amount),
        vec![K::P(p), K::QV(p), K::M(qm), K::Esc(p, owner, reg), K::Tok(payer, qm), K::W(payer), tp(e.w, qm)],
        vec![],
        hook(e.w, qm, true),
    )
}
fn quote_out(e: &Engine, op: Op, p: u8, owner: u8, reg: u8, second: bool) -> IxSpec {
    let (_, qm) = mints(e, p);
    ix(
        op,
        vec![
            K::P(p),
            K::QV(p),
            K::M(qm),
            K::Auth,
            K::Esc(p, owner, reg),
            tk(owner, qm, second),
            K::W(owner),
            tp(e.w, qm),
            K::Memo,
        ],
        vec![],
        hook(e.w, qm, true),
    )
}
pub fn wd(e: &Engine, p: u8, owner: u8, reg: u8, amount: u64, second: bool) -> IxSpec {
    quote_out(e, Op::Wd(amount), p, owner, reg, second)
}
pub fn refund(e: &Engine, p: u8, owner: u8, reg: u8, second: bool) -> IxSpec {
    quote_out(e, Op::Refund, p, owner, reg, second)
}
pub fn claim(e: &Engine, p: u8, owner: u8, reg: u8, second: bool) -> IxSpec {
    let (bm, _) = mints(e, p);
    ix(
        Op::Claim,
        vec![
            K::P(p),
            K::BV(p),
            K::M(bm),
            K::Auth,
            K::Esc(p, owner, reg),
            tk(owner, bm, second),
            K::W(owner),
            tp(e.w, bm),
            K::Memo,
        ],
        vec![],
        hook(e.w, bm, false),
    )
}
pub fn unsold(e: &Engine, p: u8) -> IxSpec {
    let (bm, _) = mints(e, p);
    let owner = e.p(p).map(|x| x.owner).unwrap_or_default();
    let c = e.wallet_of(&owner).unwrap_or(0);
    ix(
        Op::Unsold,
        vec![K::P(p), K::BV(p), K::M(bm), K::Auth, K::Tok(c, bm), tp(e.w, bm), K::Memo],
        vec![],
        hook(e.w, bm, false),
    )
}
pub fn close(_e: &Engine, p: u8, owner: u8, reg: u8, recv: u8) -> IxSpec {
    ix(Op::Close, vec![K::P(p), K::Esc(p, owner, reg), K::W(owner), K::W(recv)], vec![], HookArg::None)
}
pub fn crwd(e: &Engine, p: u8, creator: u8, second: bool) -> IxSpec {
    let (bm, qm) = mints(e, p);
    let failed = e.p(p).map(|s| crate::model::progress(s, e.now()) == crate::model::FAILED).unwrap_or(false);
    let (v, m) = if failed { (K::BV(p), bm) } else { (K::QV(p), qm) };
    ix(
        Op::CrWd,
        vec![K::P(p), K::Auth, tk(creator, m, second), K::W(creator), tp(e.w, m), K::Memo],
        vec![v, K::M(m)],
        hook(e.w, m, !failed),
    )
}
pub fn fee(e: &Engine, p: u8, creator: u8, second: bool) -> IxSpec {
    let (_, qm) = mints(e, p);
    ix(
        Op::Fee,
        vec![K::P(p), K::Auth, K::QV(p), K::M(qm), tk(creator, qm, second), K::W(creator), tp(e.w, qm), K::Memo],
        vec![],
        hook(e.w, qm, true),
    )
}
pub fn refresh(p: u8, owner: u8, reg: u8) -> IxSpec {
    ix(Op::Refresh, vec![K::P(p), K::Esc(p, owner, reg)], vec![], HookArg::None)
}
pub fn meta_create(p: u8, creator: u8, url: &str) -> IxSpec {
    ix(Op::MetaCreate(url.into()), vec![K::P(p), K::Meta(p), K::W(creator), K::Sys], vec![], HookArg::None)
}
pub fn meta_close(p: u8, creator: u8, recv: u8) -> IxSpec {
    ix(Op::MetaClose, vec![K::P(p), K::Meta(p), K::W(recv), K::W(creator)], vec![], HookArg::None)
}
