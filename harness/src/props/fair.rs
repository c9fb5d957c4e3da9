//! Equal treatment of users and pools, and truthful refusals.
use super::create::lib_curve;
use crate::check;
use crate::lin;
use crate::pools::{self, *};
use crate::report::*;
use crate::rng::Rng;
use crate::scen::roles;
use crate::svm::*;
use crate::world::*;
use solana_program::program_error::ProgramError;
use solana_program::{program_option::COption, pubkey::Pubkey};

const ASSUME: &[&str] = &["in-process runtime of the harness: accounts, privileges and rollback as on a cluster; the real SPL token processor"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C27", rule: "the same operation with the same arguments executed in two unlike settings with the same pool numbers, all token movements and the outcome compared; distinct (operation, curve, numbers, amounts)", quick: 150_000, thorough: 4_000_000, need: &["swap", "hosted swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "accepted twice", "refused twice", "constant_product", "constant_price", "stable", "offset", "linear", "after a history", "other decimals", "accounts appended", "from the fee account", "mint order differs", "other pools present", "wrapped SOL"], assumptions: ASSUME, case: c27 },
        Prop { id: "C28", rule: "a request that would succeed, spoiled in one or two known ways, whose error code was compared with the documented ones for these causes; distinct (instruction, faults, curve, numbers)", quick: 300_000, thorough: 4_000_000, need: &["one fault", "two faults", "nearly empty vault", "swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "creation", "limit", "authority", "vault", "pool mint", "fee account", "token program", "vaults the same", "user account is the vault", "pool uninitialized", "unsigned", "not the user's", "too little", "wrong mint", "nothing to trade", "deposits unsupported", "already in use", "vault owner", "vault delegate", "vault close authority", "same mints", "mint authority", "pool supply", "freeze authority", "fee account mint", "output owner", "improper fee", "curve parameter", "starting balances", "not an account", "not a mint", "constraints: owner", "constraints: curve", "constraints: fee"], assumptions: ASSUME, case: c28 },
    ]
}

// ------------------------------------------------------------------ C27
fn numbers(r: &mut Rng) -> (Curve, Fees, u64, u64, u64) {
    let which = r.below(5);
    if which == 4 {
        let l = loop {
            let l = lin::params(r);
            if l.slope() < 1e6 && l.p0() < 1e9 {
                break l;
            }
        };
        let b = r.logpos(30);
        let a = crate::big::to_u128(l.f_ceil(b as u128)).unwrap_or(u128::MAX).min(1 << 60) as u64;
        return (l.curve(), Fees::linear(), a, r.logpos(50).max(10), INITIAL_SUPPLY);
    }
    let c = pools::curve(r, which);
    let (a, b) = pools::balances(r, &c);
    let s = pools::supply(r, a, b);
    (c, Fees::random(r), a, b, s)
}

/// one setting with the given numbers
fn setting(r: &mut Rng, o: &mut Obs, n: &(Curve, Fees, u64, u64, u64), modest: bool) -> Pit {
    let (c, f, a, b, s) = n.clone();
    let mut w = World::new();
    if r.chance(1, 4) {
        // somebody else's pools, perhaps over the same mints later on
        for _ in 0..r.range(1, 2) {
            let (c2, f2, a2, b2, s2) = numbers(r);
            w.forge_pool(r, c2, f2, a2, b2, s2, None);
        }
        o.n("other pools present");
    }
    let mints = match r.below(4) {
        0 if !w.pools.is_empty() => Some((w.pools[0].mint_b, w.pools[0].mint_a)),
        1 if modest => {
            let m = w.native_mint();
            o.n("wrapped SOL");
            let x = w.mint(r, None);
            Some(if r.chance(1, 2) { (m, x) } else { (x, m) })
        }
        _ => None,
    };
    let (i, rest) = w.forge_pool(r, c, f, a, b, s, mints);
    let p = w.pools[i].clone();
    if r.chance(1, 2) {
        for k in [p.pool_mint, p.mint_a, p.mint_b] {
            let n = r.below(20) as u8;
            w.edit_mint(&k, |m| m.decimals = n);
        }
        o.n("other decimals");
    }
    if r.chance(1, 4) {
        let f = w.wallet(r);
        w.edit_mint(&p.mint_a, |m| m.freeze_authority = COption::Some(f));
        w.edit_mint(&p.mint_b, |m| m.mint_authority = COption::Some(f));
    }
    if r.chance(1, 4) {
        let n = r.logpos(60);
        w.l.accts.get_mut(&p.swap).unwrap().lamports = n;
        let n = r.logpos(60);
        w.l.accts.get_mut(&p.authority).unwrap().lamports = n;
    }
    let mut pit = Pit::around(r, w, p, rest, s);
    if modest {
        for k in [pit.ua, pit.ub] {
            let v = amt(&pit.w.l, &k).min(1 << 61);
            pit.w.set_amount(&k, v);
        }
    }
    pit.people(r)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Swap(bool, u64, u64),
    Hosted(bool, u64, u64),
    DepAll(u64, u64, u64),
    WdAll(u64, u64, u64, bool),
    Dep1(bool, u64, u64),
    Wd1(bool, u64, u64, bool),
}
fn act(r: &mut Rng, n: &(Curve, Fees, u64, u64, u64)) -> Act {
    let (_, _, a, b, s) = *n;
    let side = r.chance(1, 2);
    let (x, y) = if side { (a, b) } else { (b, a) };
    let size = |r: &mut Rng, v: u64| match r.below(7) {
        0 => r.amount(),
        1 => r.range(1, 20),
        2 => v / 3 + 1,
        3 => r.near(v),
        4 => v / 1000 + 1,
        _ => r.range(1, v.max(1)),
    };
    let min = |r: &mut Rng, v: u64| if r.chance(3, 4) { 0 } else { size(r, v) };
    let max = |r: &mut Rng, v: u64| if r.chance(3, 4) { u64::MAX } else { size(r, v) };
    let in_amount = |r: &mut Rng| match n.0 {
        Curve::Price(p) if side => size(r, y).saturating_mul(p).saturating_add(r.below(3)),
        Curve::Price(p) => size(r, y / p),
        Curve::Linear { .. } => {
            if r.chance(1, 4) {
                r.amount()
            } else {
                r.logpos(40)
            }
        }
        _ => size(r, x),
    };
    let fee = r.chance(1, 4);
    match r.below(6) {
        0 => Act::Swap(side, in_amount(r), min(r, y)),
        1 => Act::Hosted(side, in_amount(r), min(r, y)),
        2 => Act::DepAll(size(r, s), max(r, a), max(r, b)),
        3 => Act::WdAll(size(r, s).min(s), min(r, a), min(r, b), fee),
        4 => Act::Dep1(side, size(r, x), min(r, s)),
        _ => Act::Wd1(side, size(r, x), max(r, s), fee),
    }
}
fn append(r: &mut Rng, pit: &Pit, ix: &mut Ix) {
    for _ in 0..r.range(1, 4) {
        let k = *r.pick(&[pit.user, pit.p.swap, pit.ua, pit.ub, pit.up, pit.host, pit.rest, pit.p.vault_a, pit.p.fee_acct, pit.p.mint_a, pit.p.pool_mint]);
        ix.metas.push(Meta { key: k, signer: k == pit.user && r.chance(1, 2), writable: r.chance(1, 2) });
    }
}
/// movements of vault A, vault B, pool token supply, the user's three accounts, fee account, host, the rest
type Legs = [i128; 9];
fn run(pit: &mut Pit, a: Act, more: Option<&mut Rng>) -> (Record, Legs) {
    let p = pit.p.clone();
    let (u, ua, ub, up) = (pit.user, pit.ua, pit.ub, pit.up);
    let t = |x: bool| if x { ua } else { ub };
    let from = |fee: bool| if fee { (p.fee_owner, p.fee_acct) } else { (u, up) };
    let mut ix = match a {
        Act::Swap(s, x, m) => swap_ix(&p, u, t(s), t(!s), s, x, m),
        Act::Hosted(s, x, m) => {
            let mut ix = swap_ix(&p, u, t(s), t(!s), s, x, m);
            ix.metas.push(Meta { key: pit.host, signer: false, writable: true });
            ix
        }
        Act::DepAll(x, ma, mb) => deposit_all_ix(&p, u, ua, ub, up, x, ma, mb),
        Act::WdAll(x, na, nb, fee) => {
            let (k, src) = from(fee);
            withdraw_all_ix(&p, k, src, ua, ub, x, na, nb)
        }
        Act::Dep1(s, x, m) => deposit_single_ix(&p, u, t(s), up, x, m),
        Act::Wd1(s, x, m, fee) => {
            let (k, src) = from(fee);
            withdraw_single_ix(&p, k, src, t(s), x, m)
        }
    };
    if let Some(r) = more {
        append(r, pit, &mut ix);
    }
    let rec = match a {
        Act::Hosted(_, x, m) => pit.w.l.exec_with(&ix, |pid, accts, _| token_bonding_curve::processor::Processor::process_swap(pid, x, m, accts)),
        _ => pit.w.l.exec(&ix),
    };
    let d = |k: &Pubkey| if rec.pre.contains_key(k) { delta(&rec, k) } else { 0 };
    let legs = [d(&p.vault_a), d(&p.vault_b), supply_delta(&rec, &p.pool_mint), d(&ua), d(&ub), d(&up), d(&p.fee_acct), d(&pit.host), d(&pit.rest)];
    (rec, legs)
}
/// the user can pay whatever the other setting's user paid, and the fee account holds what is withdrawn from it
fn purse(r: &mut Rng, pit: &mut Pit, from: &Pit, used: Option<&Legs>) {
    let keys = [(pit.ua, from.ua, 3), (pit.ub, from.ub, 4)];
    for (k, fk, i) in keys {
        let have = amt(&from.w.l, &fk);
        let v = match used {
            Some(l) if r.chance(1, 2) => {
                let need = (-l[i]).max(0) as u64;
                r.range(need, have.max(need))
            }
            _ => have,
        };
        pit.w.set_amount(&k, v);
    }
    // pool tokens may lie elsewhere, as long as the ones in play are there
    let s = mint_of(&from.w.l, &from.p.pool_mint).supply;
    let (fu, ff, fh) = (amt(&from.w.l, &from.up), amt(&from.w.l, &from.p.fee_acct), amt(&from.w.l, &from.host));
    let (mut u, mut f, mut h) = (fu, ff, fh);
    if let Some(l) = used {
        if r.chance(1, 2) {
            u = (-l[5]).max(0) as u64;
            f = (-l[6]).max(0) as u64;
            h = 0;
            let spare = s.saturating_sub(u).saturating_sub(f);
            let e = r.range(0, spare);
            if r.chance(1, 2) {
                u += e;
            } else if r.chance(1, 2) {
                f += e;
            } else {
                h += e;
            }
        }
    }
    pit.w.set_amount(&pit.up.clone(), u);
    pit.w.set_amount(&pit.p.fee_acct.clone(), f);
    pit.w.set_amount(&pit.host.clone(), h);
    let rest = pit.rest;
    pit.w.set_amount(&rest, s - u - f - h);
    let pm = pit.p.pool_mint;
    pit.w.edit_mint(&pm, |m| m.supply = s);
}

fn c27(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let n = numbers(r);
    let modest = n.2 < 1 << 60 && n.3 < 1 << 60 && r.chance(1, 2);
    let mut one = setting(r, o, &n, modest);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let st = one.st();
            let a = act(r, &(n.0.clone(), n.1.clone(), st.a, st.b, st.s));
            run(&mut one, a, None);
        }
        // allowances used up by the history are renewed
        for k in [one.ua, one.ub, one.up] {
            let u = one.user;
            one.w.edit_tok(&k, |t| {
                if t.owner != u {
                    t.delegate = COption::Some(u);
                    t.delegated_amount = u64::MAX;
                }
            });
        }
        o.n("after a history");
    }
    let st = one.st();
    let n = (n.0, n.1, st.a, st.b, st.s);
    let a = act(r, &n);
    let (name, fee) = match a {
        Act::Swap(..) => ("swap", false),
        Act::Hosted(..) => ("hosted swap", false),
        Act::DepAll(..) => ("deposit all", false),
        Act::WdAll(.., f) => ("withdraw all", f),
        Act::Dep1(..) => ("deposit single", false),
        Act::Wd1(.., f) => ("withdraw single", f),
    };
    let before = one.clone();
    let (rec, legs) = run(&mut one, a, None);
    o.n(name);
    o.n(n.0.kind());
    if fee {
        o.n("from the fee account");
    }
    for k in 0..2u64 {
        let mut two = if k == 0 { setting(r, o, &n, modest) } else { before.clone() };
        if k == 0 {
            let used = if rec.outcome.ok() { Some(&legs) } else { None };
            purse(r, &mut two, &before, used);
            if (two.p.mint_a < two.p.mint_b) != (one.p.mint_a < one.p.mint_b) {
                o.n("mint order differs");
            }
        }
        // the handler takes a fixed list of accounts, what follows is nobody's
        let more = (k == 1 || r.chance(1, 4)) && !matches!(a, Act::Hosted(..));
        let mut rr = Rng::new(r.u64(), 1, 1);
        let (rec2, legs2) = run(&mut two, a, if more { Some(&mut rr) } else { None });
        if more {
            o.n("accounts appended");
        }
        for x in [&rec, &rec2] {
            if let Outcome::Panic(m) = &x.outcome {
                return viol("C27-abort", format!("{:?} panicked: {} ({})", a, m, before.desc()));
            }
        }
        o.eval(true, &[n.0.type_byte() as u64, n.2, n.3, n.4, legs[0] as u64, legs[1] as u64, legs[2] as u64, k]);
        let ctx = || format!("{:?} on {}", a, before.desc());
        check!(rec.outcome == rec2.outcome, format!("C27-{}-outcome", name.replace(' ', "-")), "{} for one user and {} for another, in like pools: {}", show(&rec.outcome), show(&rec2.outcome), ctx());
        check!(legs == legs2, format!("C27-{}-amounts", name.replace(' ', "-")), "two like users get unlike terms: {:?} and {:?} (vault A, vault B, supply, user A, user B, user pool tokens, fee account, host, others): {}", legs, legs2, ctx());
        o.n(if rec.outcome.ok() { "accepted twice" } else { "refused twice" });
    }
    o.sample(|| format!("{:?}: {} moved {:?} in both settings", a, before.desc(), legs));
    Ok(())
}
fn show(x: &Outcome) -> String {
    match x {
        Outcome::Ok => "accepted".into(),
        e => format!("{:?}", e),
    }
}

// ------------------------------------------------------------------ C28
#[derive(Clone, Debug, PartialEq)]
enum Why {
    /// one of this program's own errors
    Own(u32),
    /// the token program said so
    Tok(u32),
    Std(ProgramError),
}
fn why(rec: &Record) -> Option<Why> {
    match &rec.outcome {
        Outcome::Err(ProgramError::Custom(c)) => Some(match rec.cpi.last() {
            Some(e) if e.result == Err(ProgramError::Custom(*c)) => Why::Tok(*c),
            _ => Why::Own(*c),
        }),
        Outcome::Err(e) => Some(Why::Std(e.clone())),
        _ => None,
    }
}
// the published numbers of this program's errors
const ALREADY_IN_USE: u32 = 0;
const INVALID_PROGRAM_ADDRESS: u32 = 1;
const INVALID_OWNER: u32 = 2;
const INVALID_OUTPUT_OWNER: u32 = 3;
const EXPECTED_MINT: u32 = 4;
const EXPECTED_ACCOUNT: u32 = 5;
const EMPTY_SUPPLY: u32 = 6;
const INVALID_SUPPLY: u32 = 7;
const INVALID_DELEGATE: u32 = 8;
const INVALID_INPUT: u32 = 9;
const INCORRECT_SWAP_ACCOUNT: u32 = 10;
const INCORRECT_POOL_MINT: u32 = 11;
const REPEATED_MINT: u32 = 15;
const EXCEEDED_SLIPPAGE: u32 = 16;
const INVALID_CLOSE_AUTHORITY: u32 = 17;
const INVALID_FREEZE_AUTHORITY: u32 = 18;
const INCORRECT_FEE_ACCOUNT: u32 = 19;
const ZERO_TRADING_TOKENS: u32 = 20;
const INVALID_FEE: u32 = 23;
const INCORRECT_TOKEN_PROGRAM: u32 = 24;
const UNSUPPORTED_CURVE_TYPE: u32 = 25;
const INVALID_CURVE: u32 = 26;
const UNSUPPORTED_OPERATION: u32 = 27;
/// Anchor's own: the account did not sign (as a constraint, as an account type)
const NOT_SIGNED: [Why; 3] = [Why::Own(2002), Why::Own(3010), Why::Std(ProgramError::MissingRequiredSignature)];
const TOK_INSUFFICIENT: u32 = 1;
const TOK_MINT: u32 = 3;
const TOK_OWNER: u32 = 4;
const TOK_FROZEN: u32 = 17;

type Fault = (&'static str, Vec<Why>);
fn own(n: &'static str, c: &[u32]) -> Fault {
    (n, c.iter().map(|x| Why::Own(*x)).collect())
}
fn u64at(d: &[u8], i: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[8 + 8 * i..16 + 8 * i]);
    u64::from_le_bytes(b)
}
fn put64(d: &mut [u8], i: usize, v: u64) {
    d[8 + 8 * i..16 + 8 * i].copy_from_slice(&v.to_le_bytes())
}

fn spoil(r: &mut Rng, w: &mut World, p: &Pool, op: Op, ix: &mut Ix, free: &Record) -> Option<Fault> {
    let ro = roles(op);
    let deposit = matches!(op, Op::DepositAll | Op::DepositSingle);
    let single = matches!(op, Op::DepositSingle | Op::WithdrawSingle);
    Some(match r.below(18) {
        0 | 1 => {
            // the stated limits: all but the first argument
            let n = (ix.data.len() - 8) / 8;
            let j = 1 + r.usize(n - 1);
            let (k, max) = match op {
                Op::Swap => (6, false),
                Op::DepositAll => (2 + j, true),
                Op::WithdrawAll => (6 + j, false),
                Op::DepositSingle => (7, false),
                Op::WithdrawSingle => (4, true),
            };
            let moved = delta(free, &ix.metas[k].key).unsigned_abs() as u64;
            let lim = if max {
                match r.below(2) {
                    0 => moved.checked_sub(1)?,
                    _ => r.range(0, moved.checked_sub(1)?),
                }
            } else {
                match r.below(2) {
                    0 => moved + 1,
                    _ => r.range(moved + 1, u64::MAX),
                }
            };
            put64(&mut ix.data, j, lim);
            own("limit", &[EXCEEDED_SLIPPAGE])
        }
        2 => {
            ix.metas[1].key = match r.below(3) {
                0 => w.wallet(r),
                1 => p.swap,
                _ => {
                    let x = w.key(r);
                    let k = Pubkey::find_program_address(&[x.as_ref()], &pid()).0;
                    w.put(k, solana_program::system_program::id(), vec![]);
                    k
                }
            };
            own("authority", &[INVALID_PROGRAM_ADDRESS])
        }
        3 => {
            let i = if r.chance(1, 2) { ro.vaults.0 } else { ro.vaults.1 };
            let v = tok(&w.l, &ix.metas[i].key);
            let owner = if r.chance(1, 2) { p.authority } else { w.wallet(r) };
            let mint = if r.chance(1, 3) { w.mint(r, None) } else { v.mint };
            let n = if r.chance(1, 2) { v.amount } else { r.amount() };
            ix.metas[i].key = w.token(r, mint, owner, 0);
            let k = ix.metas[i].key;
            w.edit_tok(&k, |t| t.amount = n);
            own("vault", &[INCORRECT_SWAP_ACCOUNT])
        }
        4 => {
            let auth = if r.chance(1, 2) { p.authority } else { w.wallet(r) };
            let k = w.mint(r, Some(auth));
            let s = mint_of(&w.l, &p.pool_mint).supply;
            w.edit_mint(&k, |m| m.supply = s);
            ix.metas[ro.mint].key = k;
            own("pool mint", &[INCORRECT_POOL_MINT])
        }
        5 => {
            let i = ro.fee?;
            let me = ix.metas[2].key;
            ix.metas[i].key = w.token(r, p.pool_mint, me, 0);
            own("fee account", &[INCORRECT_FEE_ACCOUNT])
        }
        6 => {
            let k = w.key(r);
            w.l.accts.insert(k, Account { lamports: 1, data: vec![], owner: solana_program::bpf_loader::id(), executable: true });
            ix.metas[ro.tp].key = k;
            own("token program", &[INCORRECT_TOKEN_PROGRAM])
        }
        7 => {
            let (i, j) = if r.chance(1, 2) { ro.vaults } else { (ro.vaults.1, ro.vaults.0) };
            ix.metas[i].key = ix.metas[j].key;
            own("vaults the same", &[INVALID_INPUT, INCORRECT_SWAP_ACCOUNT])
        }
        8 => {
            let (i, v) = match op {
                Op::Swap if r.chance(1, 2) => (3, p.mint_a == tok(&w.l, &ix.metas[3].key).mint),
                Op::Swap => (6, p.mint_a == tok(&w.l, &ix.metas[6].key).mint),
                Op::DepositAll if r.chance(1, 2) => (3, true),
                Op::DepositAll => (4, false),
                Op::WithdrawAll if r.chance(1, 2) => (7, true),
                Op::WithdrawAll => (8, false),
                Op::DepositSingle => (3, p.mint_a == tok_acc(w.l.get(&ix.metas[3].key))?.mint),
                Op::WithdrawSingle => (7, p.mint_a == tok_acc(w.l.get(&ix.metas[7].key))?.mint),
            };
            ix.metas[i].key = p.vault(v);
            own("user account is the vault", &[INVALID_INPUT])
        }
        9 => {
            let a = w.l.accts.get_mut(&p.swap).unwrap();
            if r.chance(1, 2) {
                a.data.iter_mut().for_each(|x| *x = 0);
            } else {
                a.data[1] = 0;
            }
            ("pool uninitialized", vec![Why::Std(ProgramError::UninitializedAccount)])
        }
        10 => {
            ix.metas[2].signer = false;
            ("unsigned", NOT_SIGNED.to_vec())
        }
        11 => {
            ix.metas[2].key = w.wallet(r);
            ("not the user's", vec![Why::Tok(TOK_OWNER)])
        }
        12 => {
            let i = *r.pick(ro.src);
            let k = ix.metas[i].key;
            let need = -delta(free, &k);
            if need <= 0 || tok_acc(w.l.get(&k))?.is_native() {
                return None;
            }
            let v = if r.chance(1, 2) { need as u64 - 1 } else { r.range(0, need as u64 - 1) };
            w.edit_tok(&k, |t| t.amount = v);
            // a user that cannot pay is told so, wherever the tokens were missing
            ("too little", vec![Why::Tok(TOK_INSUFFICIENT)])
        }
        13 => {
            let src = r.chance(1, 2);
            let i = if src { *r.pick(ro.src) } else { *r.pick(ro.dst) };
            let me = ix.metas[2].key;
            let mint = w.mint(r, None);
            ix.metas[i].key = w.token(r, mint, me, 1 << 61);
            // single-sided operations tell the side from the mint
            let names_side = single && (src == deposit);
            ("wrong mint", if names_side { vec![Why::Own(INCORRECT_SWAP_ACCOUNT)] } else { vec![Why::Tok(TOK_MINT)] })
        }
        14 => {
            if mint_of(&w.l, &p.pool_mint).supply == 0 {
                return None;
            }
            put64(&mut ix.data, 0, 0);
            own("nothing to trade", &[ZERO_TRADING_TOKENS])
        }
        15 => {
            // frozen at the user's end
            let i = if r.chance(1, 2) { *r.pick(ro.src) } else { *r.pick(ro.dst) };
            let k = ix.metas[i].key;
            if delta(free, &k) == 0 {
                return None;
            }
            w.edit_tok(&k, |t| t.state = spl_token::state::AccountState::Frozen);
            ("frozen", vec![Why::Tok(TOK_FROZEN)])
        }
        16 => {
            w.l.accts.get_mut(&p.swap).unwrap().owner = *r.pick(&[spl_token::id(), solana_program::system_program::id()]);
            ("not the program's pool", vec![Why::Std(ProgramError::IncorrectProgramId)])
        }
        _ => {
            let i = if r.chance(1, 2) { ro.vaults.0 } else { ro.vaults.1 };
            let k = ix.metas[i].key;
            w.l.accts.get_mut(&k).unwrap().owner = pid();
            own("vault of another program", &[INCORRECT_TOKEN_PROGRAM])
        }
    })
}

fn judge(o: &mut Obs, what: &'static str, rec: &Record, faults: &[Fault], ctx: &dyn Fn() -> String) -> R {
    o.n(what);
    for (n, _) in faults {
        o.n(n);
    }
    let names = || faults.iter().map(|x| x.0).collect::<Vec<_>>().join(" and ");
    if let Outcome::Panic(m) = &rec.outcome {
        return viol("C28-abort", format!("{} panicked: {} ({})", what, m, ctx()));
    }
    let got = match why(rec) {
        Some(g) => g,
        None => {
            // not this monitor's business
            o.n("accepted");
            return Ok(());
        }
    };
    o.n(if faults.len() == 1 { "one fault" } else { "two faults" });
    if std::env::var("VMON_CALIB").is_ok() && faults.len() == 1 {
        println!("CAL {} | {} | {:?} | {:?}", what, names(), got, faults[0].1);
        return Ok(());
    }
    let right = faults.iter().any(|f| f.1.contains(&got));
    check!(right, format!("C28-{}", names().replace(' ', "-").replace('\'', "")), "{} spoiled by {} is refused with {:?}, which says something else: {}", what, names(), got, ctx());
    o.sample(|| format!("{} spoiled by {}: {:?}", what, names(), got));
    Ok(())
}

fn c28(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    if r.chance(2, 5) {
        return c28_creation(r, o);
    }
    let zero = r.chance(1, 3);
    let mut sc = crate::scen::Scen::new(r, 1, zero);
    let p = sc.w.pools[0].clone();
    // one-sided and nearly empty pools too
    if r.chance(1, 5) {
        let v = p.vault(r.chance(1, 2));
        let n = if r.chance(2, 3) { 0 } else { r.range(0, 5) };
        sc.w.edit_tok(&v, |t| t.amount = std::cmp::min(t.amount, n));
        o.n("nearly empty vault");
    }
    for _ in 0..3 {
        let op = crate::scen::op_of(r);
        let mut ix = sc.honest(r, 0, op, 0);
        let mut w = sc.w.clone();
        let what = match op {
            Op::Swap => "swap",
            Op::DepositAll => "deposit all",
            Op::WithdrawAll => "withdraw all",
            Op::DepositSingle => "deposit single",
            Op::WithdrawSingle => "withdraw single",
        };
        let base = sc.w.l.clone().exec(&ix);
        let mut faults: Vec<Fault> = vec![];
        if !base.outcome.ok() {
            // the one refusal that needs no spoiling
            if matches!(op, Op::DepositAll | Op::DepositSingle) && matches!(p.curve, Curve::Linear { .. } | Curve::Offset(_)) {
                faults.push(own("deposits unsupported", &[UNSUPPORTED_OPERATION]));
                judge(o, what, &base, &faults, &|| format!("{:?}", p.curve))?;
            }
            continue;
        }
        let n = if r.chance(2, 3) { 1 } else { 2 };
        for _ in 0..n {
            // two faults in one account would make a third
            let (mut w2, mut ix2) = (w.clone(), ix.clone());
            if let Some(f) = spoil(r, &mut w2, &p, op, &mut ix2, &base) {
                let token_account = |f: &Fault| ["vault", "vaults the same", "user account is the vault", "too little", "wrong mint", "frozen", "vault of another program"].contains(&f.0);
                if !(token_account(&f) && faults.iter().any(token_account)) {
                    faults.push(f);
                    w = w2;
                    ix = ix2;
                }
            }
        }
        if faults.is_empty() {
            continue;
        }
        let rec = w.l.exec(&ix);
        let key = faults.iter().fold(7u64, |x, f| x * 131 + f.0.len() as u64 * 7 + f.0.as_bytes()[0] as u64);
        o.eval(true, &[op as u64, p.curve.type_byte() as u64, key, u64at(&ix.data, 0), u64at(&ix.data, 1)]);
        judge(o, what, &rec, &faults, &|| format!("{:?} fees {:?} with {:?}, arguments {:?}", p.curve, p.fees, sc.st(0), &ix.data[8..]))?;
    }
    Ok(())
}

fn c28_creation(r: &mut Rng, o: &mut Obs) -> R {
    use token_bonding_curve::constraints::SwapConstraints;
    use token_bonding_curve::curve::base::CurveType;
    let which = r.below(5);
    let entry = which >= 3;
    let mut curve = match which {
        0 => Curve::Cp,
        1 => pools::curve(r, 2),
        2 => pools::curve(r, 3),
        3 => pools::curve(r, 1),
        _ => loop {
            let l = lin::params(r);
            if l.sn as u128 * 1_000_000_000_000_000_000 >= l.sd as u128 {
                break l.curve();
            }
        },
    };
    let mut fees = if curve.is_linear() { Fees::linear() } else { Fees::small(r) };
    let mut faults: Vec<Fault> = vec![];
    let n = if r.chance(2, 3) { 1 } else { 2 };
    let picks: Vec<u64> = (0..n).map(|_| r.below(22)).collect();
    let (mut a, mut b) = (r.range(1, 1 << 40), r.range(1, 1 << 40));
    if curve.is_linear() {
        a = 0;
    }
    for k in &picks {
        match k {
            0 => {
                curve = match curve {
                    Curve::Price(_) => Curve::Price(0),
                    Curve::Offset(_) => Curve::Offset(0),
                    Curve::Linear { sn, sd, pn, pd } => match r.below(3) {
                        0 => Curve::Linear { sn: 0, sd, pn, pd },
                        1 => Curve::Linear { sn, sd: 0, pn, pd },
                        _ => Curve::Linear { sn, sd, pn, pd: 0 },
                    },
                    _ => continue,
                };
                faults.push(own("curve parameter", &[INVALID_CURVE]));
            }
            1 => {
                if curve.is_linear() {
                    continue;
                }
                let d = r.amount();
                let x = match r.below(3) {
                    0 => (d.max(1), d.max(1)),
                    1 => (d.max(1), 0),
                    _ => (d.saturating_add(1), d),
                };
                match r.below(4) {
                    0 => fees.trade = x,
                    1 => fees.owner = x,
                    2 => fees.withdraw = x,
                    _ => fees.host = x,
                }
                faults.push(own("improper fee", &[INVALID_FEE]));
            }
            2 => {
                match curve {
                    Curve::Linear { .. } => {
                        if r.chance(1, 2) {
                            b = 0
                        } else {
                            a = r.range(1, 100)
                        }
                    }
                    Curve::Price(_) | Curve::Offset(_) => a = 0,
                    _ => {
                        if r.chance(1, 2) {
                            a = 0
                        } else {
                            b = 0
                        }
                    }
                }
                faults.push(own("starting balances", if curve.is_linear() { &[EMPTY_SUPPLY, INVALID_SUPPLY] } else { &[EMPTY_SUPPLY] }));
            }
            _ => {}
        }
    }
    let mut w = World::new();
    let (p, dest) = w.prepare_pool_any(r, curve, fees.clone(), a, b);
    let mut ix = match curve {
        Curve::Linear { .. } | Curve::Price(_) => init_ix(&p, dest),
        _ => Ix { program: pid(), metas: init_metas(&p, dest), data: vec![] },
    };
    // (owner, types, fees) of the constraints, if any
    let mut cons: Option<(String, Vec<CurveType>, token_bonding_curve::curve::fees::Fees)> = None;
    let types = || vec![CurveType::ConstantPrice, CurveType::LinearPrice, CurveType::ConstantProduct, CurveType::Stable, CurveType::Offset];
    for k in &picks {
        let v = if r.chance(1, 2) { p.vault_a } else { p.vault_b };
        let x = w.wallet(r);
        match k {
            3 => {
                w.l.accts.get_mut(&p.swap).unwrap().data = p.state_bytes();
                faults.push(own("already in use", &[ALREADY_IN_USE]));
            }
            4 => {
                ix.metas[1].key = x;
                faults.push(own("authority", &[INVALID_PROGRAM_ADDRESS]));
            }
            5 => {
                w.edit_tok(&v, |t| t.owner = x);
                faults.push(own("vault owner", &[INVALID_OWNER]));
            }
            6 => {
                w.edit_tok(&v, |t| t.delegate = COption::Some(x));
                faults.push(own("vault delegate", &[INVALID_DELEGATE]));
            }
            7 => {
                w.edit_tok(&v, |t| t.close_authority = COption::Some(x));
                faults.push(own("vault close authority", &[INVALID_CLOSE_AUTHORITY]));
            }
            8 => {
                let m = if v == p.vault_a { p.mint_b } else { p.mint_a };
                w.edit_tok(&v, |t| t.mint = m);
                faults.push(own("same mints", &[REPEATED_MINT]));
            }
            9 => {
                w.edit_mint(&p.pool_mint, |m| m.mint_authority = if r.chance(1, 2) { COption::None } else { COption::Some(x) });
                faults.push(own("mint authority", &[INVALID_OWNER]));
            }
            10 => {
                let s = r.logpos(64);
                w.edit_mint(&p.pool_mint, |m| m.supply = s);
                faults.push(own("pool supply", &[INVALID_SUPPLY]));
            }
            11 => {
                w.edit_mint(&p.pool_mint, |m| m.freeze_authority = COption::Some(x));
                faults.push(own("freeze authority", &[INVALID_FREEZE_AUTHORITY]));
            }
            12 => {
                w.edit_tok(&p.fee_acct, |t| t.mint = p.mint_a);
                faults.push(own("fee account mint", &[INCORRECT_POOL_MINT]));
            }
            13 => {
                let k = if r.chance(1, 2) { p.fee_acct } else { dest };
                w.edit_tok(&k, |t| t.owner = p.authority);
                faults.push(own("output owner", &[INVALID_OUTPUT_OWNER]));
            }
            14 => {
                let k = *r.pick(&[p.vault_a, p.vault_b, p.fee_acct, dest]);
                w.edit_any(&k, |d| if r.chance(1, 2) { d.truncate(82) } else { d.iter_mut().for_each(|x| *x = 0) });
                faults.push(own("not an account", &[EXPECTED_ACCOUNT]));
            }
            15 => {
                w.edit_any(&p.pool_mint, |d| if r.chance(1, 2) { d.push(0) } else { d.iter_mut().for_each(|x| *x = 0) });
                faults.push(own("not a mint", &[EXPECTED_MINT]));
            }
            16 => {
                let k = *r.pick(&[p.vault_a, p.vault_b, p.fee_acct, dest, p.pool_mint]);
                w.l.accts.get_mut(&k).unwrap().owner = x;
                faults.push(own("another program's account", &[INCORRECT_TOKEN_PROGRAM]));
            }
            17 => {
                w.edit_tok(&dest, |t| t.mint = p.mint_b);
                faults.push(("recipient mint", vec![Why::Tok(TOK_MINT)]));
            }
            18 => {
                if !entry {
                    continue;
                }
                ix.metas[0].signer = false;
                faults.push(("unsigned", NOT_SIGNED.to_vec()));
            }
            19 | 20 | 21 if !entry && cons.is_none() => {
                let mut want = fees.lib();
                let owner = p.fee_owner.to_string();
                let f = match k {
                    19 => {
                        let other = match r.below(3) {
                            0 => "nobody".to_string(),
                            1 => p.authority.to_string(),
                            _ => x.to_string(),
                        };
                        cons = Some((other, types(), want));
                        own("constraints: owner", &[INVALID_OWNER])
                    }
                    20 => {
                        cons = Some((owner, vec![], want));
                        own("constraints: curve", &[UNSUPPORTED_CURVE_TYPE])
                    }
                    _ => {
                        want.host_fee_numerator = want.host_fee_numerator.wrapping_add(1);
                        cons = Some((owner, types(), want));
                        own("constraints: fee", &[INVALID_FEE])
                    }
                };
                faults.push(f);
            }
            _ => {}
        }
    }
    if faults.is_empty() {
        return Ok(());
    }
    o.eval(true, &[99, curve.type_byte() as u64, picks.iter().fold(3, |x, y| x * 31 + y), a, b]);
    let c = lib_curve(&curve);
    let f = fees.lib();
    let given = cons.as_ref().map(|(owner_key, valid_curve_types, fees)| SwapConstraints { owner_key, valid_curve_types, fees });
    let rec = if entry { w.l.exec(&ix) } else { w.l.exec_with(&ix, move |id, accts, _| token_bonding_curve::processor::Processor::process_initialize(id, f, c, accts, &given)) };
    judge(o, "creation", &rec, &faults, &|| format!("{:?} fees {:?} A={} B={}", curve, fees, a, b))
}
