//! C05, C21, C22, C25: crashes, state layout, fixed-point arithmetic, instruction format and direction.
use crate::big::*;
use crate::check;
use crate::lin;
use crate::pools;
use crate::report::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use token_bonding_curve::curve::base::{CurveType, SwapCurve};
use token_bonding_curve::curve::fees::Fees as LibFees;
use token_bonding_curve::dfs_precise_number::DFSPreciseNumber;
use token_bonding_curve::processor::Processor;
use token_bonding_curve::state::{SwapState, SwapV1, SwapVersion};

const ENTRY: &[&str] = &["instructions run through the program's own entry point on an in-process ledger with the real token program code; overflow checks are on, so a wrapping sum in the shipped build shows up as a panic"];
const LIB: &[&str] = &["the code under test is called as a library on the host; U256 arithmetic is checked against an independent wide-integer implementation"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", rule: "an instruction on hostile state, accounts or data, or a decode of arbitrary bytes, watched for panics and hangs; distinct (kind, curve, amounts, mutation)", quick: 1_000_000, thorough: 40_000_000, need: &["extreme state", "improper stored fees", "zero curve parameters", "hostile accounts", "hostile data", "decoded bytes", "created", "constant_product", "constant_price", "stable", "offset", "linear", "accepted", "refused", "square root argument at a power of two", "empty pool", "account data truncated", "accounts missing", "one account in two places"], assumptions: ENTRY, case: c05 },
        Prop { id: "C21", rule: "a state encoded and decoded, or bytes offered to the decoder, compared with the published layout; distinct (fields) or (length, version, flag, type)", quick: 4_000_000, thorough: 12_000_000, need: &["round trip", "decoded as published", "refused", "wrong length", "wrong version", "wrong flag", "uninitialized", "unknown curve type", "encoded into a buffer of the wrong size", "constant_product", "constant_price", "stable", "offset", "linear"], assumptions: LIB, case: c21 },
        Prop { id: "C22", rule: "a fixed-point operation compared with exact rational arithmetic; distinct (operation, operands)", quick: 8_000_000, thorough: 120_000_000, need: &["add", "sub", "mul", "div", "floor", "ceiling", "compare", "to whole number", "to spl number", "square root down", "square root up", "no result", "product beyond 256 bits", "dividend beyond 256 bits", "divided by zero", "perfect square", "rounded-up argument carries"], assumptions: LIB, case: c22 },
        Prop { id: "C25", rule: "an instruction presented with both vault orders, or with altered bytes, compared with the rule for the vaults named and the published format; distinct (instruction, curve, order, alteration)", quick: 250_000, thorough: 2_500_000, need: &["constant_product", "constant_price", "stable", "offset", "linear", "forward", "reversed", "mirrored price would differ", "truncated", "unknown name", "old-style tag", "argument order", "initialize in published order", "vaults crossed with user accounts", "single-sided token A", "single-sided token B"], assumptions: ENTRY, case: c25 },
    ]
}

fn lib_curve(c: &Curve) -> SwapCurve {
    super::create::lib_curve(c)
}

// ------------------------------------------------------------------ C05
pub fn raw64(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.amount(),
        1 => *r.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]),
        _ => r.log64(64),
    }
}
pub fn wild_fees(r: &mut Rng) -> Fees {
    match r.below(4) {
        0 => Fees::linear(),
        1 => Fees::default(),
        2 => Fees::random(r),
        _ => Fees { trade: (raw64(r), raw64(r)), owner: (raw64(r), raw64(r)), withdraw: (raw64(r), raw64(r)), host: (raw64(r), raw64(r)) },
    }
}
pub fn wild_curve(r: &mut Rng) -> Curve {
    match r.below(8) {
        0 => Curve::Cp,
        1 => Curve::Price(raw64(r)),
        2 => Curve::Stable(raw64(r)),
        3 => Curve::Offset(raw64(r)),
        4 => Curve::Linear { sn: raw64(r), sd: raw64(r), pn: raw64(r), pd: raw64(r) },
        5 => pools::curve(r, 2),
        _ => lin::params(r).curve(),
    }
}
fn no_crash(rec: &Record, what: impl Fn() -> String) -> R {
    match &rec.outcome {
        Outcome::Panic(m) => viol(format!("C05-{}", site(m)), format!("panicked: {}: {}", m, what())),
        _ => Ok(()),
    }
}
/// file and line of a panic, as a signature
fn site(m: &str) -> String {
    let at = m.rfind(" at ").map(|i| &m[i + 4..]).unwrap_or("");
    let what: String = m.chars().take(40).filter(|c| c.is_alphanumeric() || *c == ' ').collect();
    format!("panic-{}-{}", at.replace('/', "."), what.trim().replace(' ', "_"))
}
fn tally(o: &mut Obs, rec: &Record) {
    match rec.outcome {
        Outcome::Ok => o.n("accepted"),
        _ => o.n("refused"),
    }
}

fn c05(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    match r.below(8) {
        0..=3 => c05_state(r, o),
        4 => c05_accounts(r, o),
        5 => c05_data(r, o),
        6 => c05_decode(r, o),
        _ => c05_create(r, o),
    }
}
fn wild_op(r: &mut Rng, p: &Pool, user: &User, st: &pools::St, entry_hosted: &mut bool) -> (Op, Ix, [u64; 3]) {
    let op = op_of(r);
    let side = r.chance(1, 2);
    let (x, y) = if side { (st.a, st.b) } else { (st.b, st.a) };
    let near = |r: &mut Rng, v: u64| match r.below(4) {
        0 => raw64(r),
        1 => r.near(v),
        2 => r.range(0, v),
        _ => r.amount(),
    };
    let v = [near(r, match op {
        Op::DepositAll | Op::WithdrawAll => st.s,
        _ => x,
    }), if r.chance(2, 3) { 0 } else { near(r, y) }, if r.chance(2, 3) { 0 } else { near(r, y) }];
    let (ta, tb, tp) = (user.tok[&p.mint_a], user.tok[&p.mint_b], user.tok[&p.pool_mint]);
    let (sx, sy) = if side { (ta, tb) } else { (tb, ta) };
    let big = |r: &mut Rng, v: u64| if r.chance(2, 3) { u64::MAX } else { v };
    let ix = match op {
        Op::Swap => {
            *entry_hosted = r.chance(1, 5);
            swap_ix(p, user.key, sx, sy, side, v[0], v[1])
        }
        Op::DepositAll => {
            let (a, b) = (big(r, v[1]), big(r, v[2]));
            deposit_all_ix(p, user.key, ta, tb, tp, v[0], a, b)
        }
        Op::WithdrawAll => withdraw_all_ix(p, user.key, tp, ta, tb, v[0], v[1], v[2]),
        Op::DepositSingle => deposit_single_ix(p, user.key, sx, tp, v[0], v[1]),
        Op::WithdrawSingle => {
            let m = big(r, v[1]);
            withdraw_single_ix(p, user.key, tp, sx, v[0], m)
        }
    };
    (op, ix, v)
}
fn one_user(r: &mut Rng, w: &mut World, pi: usize) -> User {
    let p = w.pools[pi].clone();
    let key = w.wallet(r);
    let mut tok = std::collections::BTreeMap::new();
    for m in [p.mint_a, p.mint_b, p.pool_mint] {
        let n = if r.chance(1, 2) { u64::MAX } else { r.amount() };
        let t = w.token(r, m, key, 0);
        w.set_amount(&t, n);
        tok.insert(m, t);
    }
    User { key, tok }
}
/// ordinary accounts, extreme numbers in them
fn c05_state(r: &mut Rng, o: &mut Obs) -> R {
    let curve = wild_curve(r);
    let fees = if curve.is_linear() && r.chance(1, 2) { Fees::linear() } else { wild_fees(r) };
    let mut a = raw64(r);
    let mut b = raw64(r);
    if let Curve::Stable(_) = curve {
        if r.chance(1, 2) {
            b = r.near(a);
        }
    }
    let mut at_power = false;
    if let (Curve::Linear { sn, sd, pn, pd }, true) = (curve, r.chance(1, 3)) {
        if sn > 0 && sd > 0 && pd > 0 {
            let l = lin::Lin { sn, sd, pn, pd };
            if let Some(x) = l.at_bit_boundary(r.range(40, 200) as usize) {
                a = match r.below(3) {
                    0 => x,
                    1 => x.saturating_sub(r.below(3)),
                    _ => x.saturating_add(r.below(3)),
                };
                at_power = true;
            }
        }
    }
    let mut s = match r.below(4) {
        0 => raw64(r),
        1 => INITIAL_SUPPLY,
        2 => isqrt(w(a as u128) * w(b as u128)).low_u64(),
        _ => r.logpos(64),
    };
    if r.chance(1, 12) {
        s = 0;
    }
    let mut w = World::new();
    let (pi, _) = w.forge_pool(r, curve, fees, a, b, s, None);
    let user = one_user(r, &mut w, pi);
    let p = w.pools[pi].clone();
    let n = r.range(1, 3);
    for _ in 0..n {
        let st = pools::St { a: amt(&w.l, &p.vault_a), b: amt(&w.l, &p.vault_b), s: mint_of(&w.l, &p.pool_mint).supply };
        let mut hosted = false;
        let (op, mut ix, v) = wild_op(r, &p, &user, &st, &mut hosted);
        if op == Op::WithdrawSingle || op == Op::WithdrawAll {
            // sometimes everything there is
            if r.chance(1, 4) {
                let k = user.tok[&p.pool_mint];
                w.set_amount(&k, st.s);
            }
        }
        let rec = if hosted {
            ix.metas.push(Meta { key: user.tok[&p.pool_mint], signer: false, writable: true });
            let (x, m) = (v[0], v[1]);
            w.l.exec_with(&ix, |id, accts, _| Processor::process_swap(id, x, m, accts))
        } else {
            w.l.exec(&ix)
        };
        o.n("extreme state");
        o.n(curve.kind());
        if at_power {
            o.n("square root argument at a power of two");
        }
        if st.s == 0 || (st.a == 0 && st.b == 0) {
            o.n("empty pool");
        }
        let f = [fees.trade, fees.owner, fees.withdraw, fees.host];
        if f.iter().any(|f| !((f.0 == 0 && f.1 == 0) || f.0 < f.1)) {
            o.n("improper stored fees");
        }
        match curve {
            Curve::Price(0) | Curve::Stable(0) | Curve::Offset(0) => o.n("zero curve parameters"),
            Curve::Linear { sn, sd, pd, .. } if sn == 0 || sd == 0 || pd == 0 => o.n("zero curve parameters"),
            _ => {}
        }
        o.eval(true, &[curve.type_byte() as u64, u64::from_le_bytes(curve.params()[..8].try_into().unwrap()), st.a, st.b, st.s, v[0], op as u64]);
        let ctx = || format!("{:?} on {:?} fees {:?} A={} B={} supply={} args {:?}{}", op, curve, fees, st.a, st.b, st.s, v, if hosted { " with host" } else { "" });
        no_crash(&rec, ctx)?;
        tally(o, &rec);
        o.sample(|| format!("{}: {:?}", ctx(), rec.outcome));
    }
    Ok(())
}
/// an honest instruction with its accounts vandalized
fn c05_accounts(r: &mut Rng, o: &mut Obs) -> R {
    let mut sc = Scen::new(r, 1, false);
    let creating = r.chance(1, 5);
    let (mut ix, name) = if creating {
        let c = if r.chance(1, 2) { Curve::Price(r.logpos(20)) } else { lin::params(r).curve() };
        let f = if c.is_linear() { Fees::linear() } else { Fees::small(r) };
        let a = if c.is_linear() { 0 } else { 1000 };
        let (p, dest) = sc.w.prepare_pool(r, c, f, a, 1000, None);
        (init_ix(&p, dest), "create".to_string())
    } else {
        let op = op_of(r);
        (sc.honest(r, 0, op, 0), format!("{:?}", op))
    };
    let mut did = vec![];
    for _ in 0..r.range(1, 3) {
        let n = ix.metas.len();
        if n == 0 {
            break;
        }
        let i = r.usize(n);
        let k = ix.metas[i].key;
        match r.below(12) {
            0 => {
                ix.metas.truncate(r.usize(n));
                did.push("accounts missing");
            }
            1 => {
                let j = r.usize(n);
                ix.metas[i].key = ix.metas[j].key;
                did.push("one account in two places");
            }
            2 => {
                ix.metas[i].signer = !ix.metas[i].signer;
                did.push("signer flipped");
            }
            3 => {
                ix.metas[i].writable = !ix.metas[i].writable;
                did.push("writable flipped");
            }
            4 => {
                ix.metas[i].key = sc.w.key(r);
                did.push("account does not exist");
            }
            5 if sc.w.l.accts.contains_key(&k) => {
                let len = sc.w.l.get(&k).data.len();
                let to = match r.below(4) {
                    0 => 0,
                    1 => len.saturating_sub(1),
                    2 => len + r.usize(40),
                    _ => r.usize(400),
                };
                sc.w.edit_any(&k, |d| d.resize(to, 0));
                did.push("account data truncated");
            }
            6 | 7 if sc.w.l.accts.contains_key(&k) => {
                let x: Vec<(usize, u8)> = (0..r.range(1, 6)).map(|_| (r.usize(330), r.below(256) as u8)).collect();
                sc.w.edit_any(&k, |d| {
                    for (i, v) in &x {
                        if d.len() > 0 {
                            let n = d.len();
                            d[i % n] = *v;
                        }
                    }
                });
                did.push("account data altered");
            }
            8 if sc.w.l.accts.contains_key(&k) => {
                let b = *r.pick(&[0u8, 255, 1, 127]);
                sc.w.edit_any(&k, |d| d.iter_mut().for_each(|x| *x = b));
                did.push("account data overwritten");
            }
            9 if sc.w.l.accts.contains_key(&k) => {
                let ow = match r.below(4) {
                    0 => pid(),
                    1 => token_program(),
                    2 => solana_program::system_program::id(),
                    _ => sc.w.key(r),
                };
                sc.w.l.accts.get_mut(&k).unwrap().owner = ow;
                did.push("account owner changed");
            }
            10 => {
                let j = r.usize(n);
                let x = ix.metas[i].key;
                ix.metas[i].key = ix.metas[j].key;
                ix.metas[j].key = x;
                did.push("accounts exchanged");
            }
            _ => {
                let x = Meta { key: sc.w.key(r), signer: r.chance(1, 2), writable: r.chance(1, 2) };
                ix.metas.insert(i, x);
                did.push("account inserted");
            }
        }
    }
    let rec = sc.w.l.exec(&ix);
    o.n("hostile accounts");
    for d in &did {
        o.n(d);
    }
    o.eval(true, &[1, r.u64()]);
    let p = &sc.w.pools[0];
    let ctx = || format!("{} on {:?} with {:?}", name, p.curve, did);
    no_crash(&rec, ctx)?;
    tally(o, &rec);
    Ok(())
}
const NAMES: [&str; 7] = ["initialize_constant_price", "initialize_linear_price", "swap", "deposit_all_token_types", "withdraw_all_token_types", "deposit_single_token_type_exact_amount_in", "withdraw_single_token_type_exact_amount_out"];
/// published names (first eight bytes of sha256("global:<name>")) and argument counts
const ABI: [(&str, [u8; 8], usize); 7] = [
    ("initialize_constant_price", [125, 94, 220, 25, 84, 243, 56, 187], 9),
    ("initialize_linear_price", [216, 58, 55, 98, 142, 240, 233, 224], 4),
    ("swap", [248, 198, 158, 145, 225, 117, 135, 200], 2),
    ("deposit_all_token_types", [32, 95, 69, 60, 75, 79, 205, 238], 3),
    ("withdraw_all_token_types", [189, 254, 156, 174, 210, 9, 164, 216], 3),
    ("deposit_single_token_type_exact_amount_in", [99, 207, 4, 42, 88, 157, 45, 55], 2),
    ("withdraw_single_token_type_exact_amount_out", [243, 192, 70, 139, 209, 156, 8, 139], 2),
];
/// Anchor's own interface-description instructions live behind this name
const IDL: [u8; 8] = [64, 244, 188, 120, 167, 233, 105, 10];

/// an honest account list with other instruction data
fn c05_data(r: &mut Rng, o: &mut Obs) -> R {
    let mut sc = Scen::new(r, 1, false);
    let op = op_of(r);
    let mut ix = sc.honest(r, 0, op, 0);
    let kind = r.below(6);
    match kind {
        0 => ix.data = (0..r.below(120)).map(|_| r.below(256) as u8).collect(),
        1 => {
            // any instruction's name, any arguments
            let n = *r.pick(&NAMES);
            let args: Vec<u64> = (0..r.below(11)).map(|_| raw64(r)).collect();
            ix.data = ixdata(n, &args);
        }
        2 => {
            let n = r.usize(ix.data.len());
            ix.data.truncate(n);
        }
        3 => {
            ix.data = IDL.to_vec();
            let n = r.below(60);
            let tag = r.below(6) as u8;
            ix.data.push(tag);
            for _ in 0..n {
                let b = r.below(256) as u8;
                ix.data.push(b);
            }
        }
        4 => {
            // the interface of the program this one derives from
            let mut d = vec![r.below(8) as u8];
            for _ in 0..r.below(12) {
                d.extend_from_slice(&raw64(r).to_le_bytes());
            }
            ix.data = d;
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                let i = r.usize(ix.data.len());
                ix.data[i] ^= 1 << r.below(8);
            }
        }
    }
    if kind == 3 && r.chance(1, 2) {
        // a program-owned account in every place
        let k = sc.w.pools[0].swap;
        let u = sc.users[0].key;
        ix.metas = vec![Meta { key: k, signer: false, writable: true }, Meta { key: u, signer: true, writable: true }, Meta { key: k, signer: false, writable: true }, Meta { key: u, signer: true, writable: false }];
    }
    let before = sc.w.l.get(&sc.w.pools[0].swap).data.clone();
    let rec = sc.w.l.exec(&ix);
    o.n("hostile data");
    o.eval(true, &[2, kind, r.u64()]);
    let p = &sc.w.pools[0];
    no_crash(&rec, || format!("{:?} accounts with data {:?} (pool {:?})", op, ix.data, p.curve))?;
    check!(sc.w.l.get(&p.swap).data == before, "C05-state", "instruction data {:?} changed a pool's stored state", ix.data);
    tally(o, &rec);
    Ok(())
}
fn c05_decode(r: &mut Rng, o: &mut Obs) -> R {
    let n = match r.below(4) {
        0 => r.usize(700),
        1 => *r.pick(&[0usize, 1, 2, 291, 292, 323, 324, 325]),
        _ => STATE_LEN,
    };
    let mut d: Vec<u8> = match r.below(3) {
        0 => vec![*r.pick(&[0u8, 1, 255, 30]); n],
        _ => (0..n).map(|_| r.below(256) as u8).collect(),
    };
    if n > 0 && r.chance(3, 4) {
        d[0] = 1;
    }
    if n > 1 && r.chance(3, 4) {
        d[1] = r.below(3) as u8;
    }
    if n > 291 && r.chance(3, 4) {
        d[291] = *r.pick(&[0u8, 1, 2, 3, 4, 29, 30, 31]);
    }
    o.n("decoded bytes");
    o.eval(true, &[3, n as u64, d.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64))]);
    let what = || format!("{} bytes {:?}", d.len(), &d[..d.len().min(3)]);
    let res = guarded(|| match SwapVersion::unpack(&d) {
        Ok(s) => {
            // everything a reader of the state may ask
            let c = s.swap_curve();
            let _ = (s.is_initialized(), s.bump_seed(), *s.token_program_id(), *s.token_a_account(), *s.token_b_account(), *s.pool_mint(), *s.token_a_mint(), *s.token_b_mint(), *s.pool_fee_account());
            let _ = c.calculator.validate();
            let _ = s.fees().validate();
            true
        }
        Err(_) => false,
    });
    let ini = guarded(|| SwapVersion::is_initialized(&d));
    let v1 = guarded(|| {
        let _ = SwapV1::unpack(&d);
        let _ = SwapV1::unpack_unchecked(&d);
        let _ = SwapCurve::unpack_unchecked(&d);
        let _ = LibFees::unpack_unchecked(&d);
    });
    if let Err(m) = &res {
        return viol(format!("C05-{}", site(m)), format!("decoding panicked: {}: {}", m, what()));
    }
    if let Err(m) = &ini {
        return viol(format!("C05-{}", site(m)), format!("is_initialized panicked: {}: {}", m, what()));
    }
    if let Err(m) = &v1 {
        return viol(format!("C05-{}", site(m)), format!("decoding a part panicked: {}: {}", m, what()));
    }
    check!(res == ini, "C05-decode-differs", "is_initialized and unpack disagree on {}", what());
    Ok(())
}
fn c05_create(r: &mut Rng, o: &mut Obs) -> R {
    let curve = wild_curve(r);
    let fees = wild_fees(r);
    let mut w = World::new();
    let (a, b) = (raw64(r), raw64(r));
    let (p, dest) = w.prepare_pool(r, curve, fees, a, b, None);
    let entry = matches!(curve, Curve::Price(_) | Curve::Linear { .. });
    if r.chance(1, 10) {
        let n = r.usize(500);
        w.edit_any(&p.swap, |d| d.resize(n, 0));
    }
    if r.chance(1, 10) {
        let s = raw64(r);
        w.edit_mint(&p.pool_mint, |m| m.supply = s);
        w.set_amount(&dest, raw64(r));
    }
    if r.chance(1, 10) {
        w.edit_mint(&p.pool_mint, |m| m.mint_authority = COption::None);
    }
    let rec = if entry {
        w.l.exec(&init_ix(&p, dest))
    } else {
        let ix = Ix { program: pid(), metas: init_metas(&p, dest), data: vec![] };
        let c = lib_curve(&curve);
        let f = fees.lib();
        w.l.exec_with(&ix, move |id, accts, _| Processor::process_initialize(id, f, c, accts, &None))
    };
    o.n("created");
    o.eval(true, &[4, curve.type_byte() as u64, fees.trade.0, fees.host.1, r.u64()]);
    no_crash(&rec, || format!("creating {:?} fees {:?}", curve, fees))?;
    tally(o, &rec);
    Ok(())
}

// ------------------------------------------------------------------ C21
fn any_curve(r: &mut Rng) -> Curve {
    match r.below(5) {
        0 => Curve::Cp,
        1 => Curve::Price(raw64(r)),
        2 => Curve::Stable(raw64(r)),
        3 => Curve::Offset(raw64(r)),
        _ => Curve::Linear { sn: raw64(r), sd: raw64(r), pn: raw64(r), pd: raw64(r) },
    }
}
fn state_of(x: &Raw, c: &Curve) -> SwapV1 {
    SwapV1 {
        is_initialized: x.init == 1,
        bump_seed: x.bump,
        token_program_id: x.tp,
        token_a: x.vault_a,
        token_b: x.vault_b,
        pool_mint: x.mint,
        token_a_mint: x.mint_a,
        token_b_mint: x.mint_b,
        pool_fee_account: x.fee,
        fees: LibFees {
            trade_fee_numerator: x.fees[0],
            trade_fee_denominator: x.fees[1],
            owner_trade_fee_numerator: x.fees[2],
            owner_trade_fee_denominator: x.fees[3],
            owner_withdraw_fee_numerator: x.fees[4],
            owner_withdraw_fee_denominator: x.fees[5],
            host_fee_numerator: x.fees[6],
            host_fee_denominator: x.fees[7],
        },
        swap_curve: lib_curve(c),
    }
}
fn fee_list(f: &LibFees) -> [u64; 8] {
    [f.trade_fee_numerator, f.trade_fee_denominator, f.owner_trade_fee_numerator, f.owner_trade_fee_denominator, f.owner_withdraw_fee_numerator, f.owner_withdraw_fee_denominator, f.host_fee_numerator, f.host_fee_denominator]
}
fn type_byte(t: CurveType) -> u8 {
    match t {
        CurveType::ConstantProduct => 0,
        CurveType::ConstantPrice => 1,
        CurveType::Stable => 2,
        CurveType::Offset => 3,
        CurveType::LinearPrice => 30,
    }
}
/// bytes of the 32 parameter bytes a curve type uses
fn used(t: u8) -> usize {
    match t {
        0 => 0,
        30 => 32,
        _ => 8,
    }
}
fn decoded_right(s: &dyn SwapState, x: &Raw) -> Result<(), String> {
    let miss = |n: &str| Err(format!("{} differs", n));
    if !s.is_initialized() {
        return miss("initialized flag");
    }
    if s.bump_seed() != x.bump {
        return miss("bump");
    }
    for (n, got, want) in [("token program", s.token_program_id(), &x.tp), ("vault a", s.token_a_account(), &x.vault_a), ("vault b", s.token_b_account(), &x.vault_b), ("pool mint", s.pool_mint(), &x.mint), ("mint a", s.token_a_mint(), &x.mint_a), ("mint b", s.token_b_mint(), &x.mint_b), ("fee account", s.pool_fee_account(), &x.fee)] {
        if got != want {
            return miss(n);
        }
    }
    if fee_list(s.fees()) != x.fees {
        return miss("a fee");
    }
    let c = s.swap_curve();
    if type_byte(c.curve_type) != x.ctype {
        return miss("curve type");
    }
    let mut b = [0u8; 33];
    SwapCurve::pack_into_slice(c, &mut b);
    if b[0] != x.ctype || b[1..1 + used(x.ctype)] != x.params[..used(x.ctype)] {
        return miss("a curve parameter");
    }
    Ok(())
}
fn c21(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let key = |r: &mut Rng| Pubkey::new_from_array(r.bytes32());
    let c = any_curve(r);
    let mut fees = [0u64; 8];
    for f in fees.iter_mut() {
        *f = raw64(r);
    }
    let x = Raw { version: 1, init: 1, bump: r.below(256) as u8, tp: key(r), vault_a: key(r), vault_b: key(r), mint: key(r), mint_a: key(r), mint_b: key(r), fee: key(r), fees, ctype: c.type_byte(), params: c.params() };
    // the published layout, written out
    let mut want = vec![1u8, 1, x.bump];
    for k in [&x.tp, &x.vault_a, &x.vault_b, &x.mint, &x.mint_a, &x.mint_b, &x.fee] {
        want.extend_from_slice(k.as_ref());
    }
    for f in &x.fees {
        want.extend_from_slice(&f.to_le_bytes());
    }
    want.push(x.ctype);
    want.extend_from_slice(&x.params);
    o.n(c.kind());
    if r.chance(1, 2) {
        // encode
        let junk = r.below(256) as u8;
        let mut buf = vec![junk; STATE_LEN];
        let res = guarded(|| SwapVersion::pack(SwapVersion::SwapV1(state_of(&x, &c)), &mut buf).is_ok());
        check!(res == Ok(true), "C21-pack", "encoding {:?} gives {:?}", x, res);
        let n = 292 + used(x.ctype);
        check!(buf[..n] == want[..n], "C21-layout", "encoding puts byte {} as {} instead of {}: {:?}", (0..n).find(|i| buf[*i] != want[*i]).unwrap_or(0), buf[(0..n).find(|i| buf[*i] != want[*i]).unwrap_or(0)], want[(0..n).find(|i| buf[*i] != want[*i]).unwrap_or(0)], x);
        let back = guarded(|| SwapVersion::unpack(&buf).map_err(|e| format!("{:?}", e)).and_then(|s| decoded_right(&*s, &x)));
        check!(back == Ok(Ok(())), "C21-roundtrip", "decoding what was encoded: {:?}: {:?}", back, x);
        // and the same through the concrete type
        let v1 = guarded(|| SwapV1::unpack(&buf[1..]).map(|s| s == state_of(&x, &c)).ok());
        check!(v1 == Ok(Some(true)), "C21-roundtrip-v1", "the state decoded from the encoding differs from the original ({:?}): {:?}", v1, x);
        o.n("round trip");
        o.eval(true, &[0, x.ctype as u64, x.fees[0], x.fees[7], u64::from_le_bytes(x.params[..8].try_into().unwrap())]);
        // an uninitialized state does not come back as a pool
        let mut y = x.clone();
        y.init = 0;
        let mut buf0 = vec![0u8; STATE_LEN];
        let res = guarded(|| SwapVersion::pack(SwapVersion::SwapV1(state_of(&y, &c)), &mut buf0).is_ok());
        check!(res == Ok(true) && buf0[1] == 0, "C21-layout-flag", "an uninitialized state is encoded with flag {}", buf0[1]);
        check!(guarded(|| SwapVersion::unpack(&buf0).is_err() && !SwapVersion::is_initialized(&buf0)) == Ok(true), "C21-uninitialized", "an uninitialized state decodes as a pool");
        // buffers of other sizes
        let n = match r.below(3) {
            0 => STATE_LEN - 1,
            1 => STATE_LEN + 1,
            _ => r.usize(700),
        };
        if n != STATE_LEN {
            let mut b = vec![0u8; n];
            let res = guarded(|| SwapVersion::pack(SwapVersion::SwapV1(state_of(&x, &c)), &mut b).is_err());
            check!(res == Ok(true), "C21-pack-size", "encoding into {} bytes gives {:?}", n, res);
            o.n("encoded into a buffer of the wrong size");
            o.eval(true, &[1, n as u64, x.ctype as u64]);
        }
        check!(SwapVersion::LATEST_LEN == STATE_LEN, "C21-size", "the state takes {} bytes", SwapVersion::LATEST_LEN);
        return Ok(());
    }
    // decode
    let mut d = want.clone();
    // whatever stands in the parameter bytes a curve does not use is ignored
    if r.chance(1, 2) {
        for i in 292 + used(x.ctype)..STATE_LEN {
            d[i] = r.below(256) as u8;
        }
    }
    let what = match r.below(8) {
        0 => {
            let n = match r.below(4) {
                0 => STATE_LEN - 1,
                1 => STATE_LEN + 1,
                2 => r.usize(STATE_LEN),
                _ => STATE_LEN + 1 + r.usize(400),
            };
            d.resize(n, 0);
            "wrong length"
        }
        1 => {
            d[0] = r.below(256) as u8;
            "wrong version"
        }
        2 => {
            d[1] = r.below(256) as u8;
            "wrong flag"
        }
        3 => {
            d[1] = 0;
            "uninitialized"
        }
        4 | 5 => {
            d[291] = r.below(256) as u8;
            "unknown curve type"
        }
        _ => "decoded as published",
    };
    let ok = d.len() == STATE_LEN && d[0] == 1 && d[1] == 1 && matches!(d[291], 0..=3 | 30);
    let mut y = raw_state(&d);
    if let Some(y) = y.as_mut() {
        if !ok {
            y.init = 0;
        }
    }
    let res = guarded(|| SwapVersion::unpack(&d).map(|s| y.as_ref().map(|y| decoded_right(&*s, y))).map_err(|_| ()));
    let ini = guarded(|| SwapVersion::is_initialized(&d));
    o.eval(true, &[2, d.len() as u64, d.first().copied().unwrap_or(0) as u64, d.get(1).copied().unwrap_or(0) as u64, d.get(291).copied().unwrap_or(0) as u64, x.fees[0]]);
    if ok {
        check!(res == Ok(Ok(Some(Ok(())))), "C21-decode", "bytes in the published layout decode to {:?}: {:?}", res, y);
        check!(ini == Ok(true), "C21-decode-flag", "is_initialized is {:?} for a pool", ini);
        o.n("decoded as published");
    } else {
        o.n(what);
        o.n("refused");
        check!(matches!(res, Ok(Err(()))), format!("C21-accepts-{}", what.replace(' ', "-")), "accepts {} bytes, version {:?}, flag {:?}, type {:?}: {:?}", d.len(), d.first(), d.get(1), d.get(291), res);
        check!(ini == Ok(false), "C21-initialized", "is_initialized is {:?} for {} bytes, version {:?}, flag {:?}, type {:?}", ini, d.len(), d.first(), d.get(1), d.get(291));
    }
    o.sample(|| format!("{} {:?}: {:?}", what, c, ini));
    Ok(())
}

// ------------------------------------------------------------------ C22
type U256 = spl_math::uint::U256;
fn to_w(x: U256) -> U1024 {
    let mut b = [0u8; 32];
    x.to_little_endian(&mut b);
    U1024::from_little_endian(&b)
}
fn from_w(x: U1024) -> U256 {
    let mut b = [0u8; 128];
    x.to_little_endian(&mut b);
    U256::from_little_endian(&b[..32])
}
const E18: u128 = 1_000_000_000_000_000_000;
fn bits_value(r: &mut Rng, max: u64) -> U1024 {
    let bits = r.below(max + 1) as usize;
    if bits == 0 {
        return U1024::zero();
    }
    let top = U1024::one() << (bits - 1);
    match r.below(8) {
        0 => top,
        1 => (top << 1) - U1024::one(),
        2 => top + w(r.below(4) as u128),
        3 => {
            let t = (top << 1) - U1024::one();
            t - w(r.below(1 << 20) as u128).min(t)
        }
        _ => {
            let mut b = [0u8; 128];
            b[..32].copy_from_slice(&r.bytes32());
            top | (U1024::from_little_endian(&b) & (top - U1024::one()))
        }
    }
}
fn number(r: &mut Rng) -> U1024 {
    let lim = U1024::one() << 256;
    match r.below(10) {
        0 => w(raw64(r) as u128) * w(E18),
        1 => {
            let k = bits_value(r, 196) * w(E18);
            match r.below(5) {
                0 => k + w(E18 / 2),
                1 => k + w(E18 / 2) - U1024::one().min(k + w(E18 / 2)),
                2 => k + U1024::one(),
                3 => k - U1024::one().min(k),
                _ => k,
            }
        }
        2 => {
            // a perfect square (of a number with up to nine decimals)
            let s = bits_value(r, 98);
            s * s * w(E18).min(U1024::one() << 60) % lim
        }
        3 => w(r.below(1000) as u128),
        4 => lim - U1024::one() - bits_value(r, 70),
        _ => bits_value(r, 256),
    }
    .min(lim - U1024::one())
}
fn num(x: U1024) -> DFSPreciseNumber {
    DFSPreciseNumber { value: from_w(x) }
}
fn c22(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lim = U1024::one() << 256;
    let one = w(E18);
    let half = w(E18 / 2);
    let a = number(r);
    let mut b = match r.below(6) {
        0 => a,
        1 => a + U1024::one(),
        2 => a - U1024::one().min(a),
        _ => number(r),
    };
    b = b.min(lim - U1024::one());
    if r.chance(1, 40) {
        b = U1024::zero();
    }
    let (na, nb) = (num(a), num(b));
    let op = r.below(12);
    let h = |x: U1024| (x.low_u64() ^ (x >> 64usize).low_u64().rotate_left(17) ^ (x >> 128usize).low_u64().rotate_left(31) ^ (x >> 192usize).low_u64().rotate_left(43));
    o.eval(true, &[op, h(a), h(b)]);
    let show = |x: U1024| format!("{}e-18", x);
    macro_rules! call {
        ($name:expr, $e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(m) => return viol(format!("C22-{}-panic", $name), format!("{} of {} and {} panicked: {}", $name, show(a), show(b), m)),
            }
        };
    }
    macro_rules! num_op {
        ($name:expr, $e:expr) => {
            call!($name, $e).map(|v: DFSPreciseNumber| to_w(v.value))
        };
    }
    match op {
        0 => {
            o.n("add");
            let g = num_op!("add", na.checked_add(&nb));
            let want = if a + b < lim { Some(a + b) } else { None };
            check!(g == want, "C22-add", "{} + {} = {:?}", show(a), show(b), g);
            if g.is_none() {
                o.n("no result");
            }
        }
        1 => {
            o.n("sub");
            let g = num_op!("sub", na.checked_sub(&nb));
            let want = if a >= b { Some(a - b) } else { None };
            check!(g == want, "C22-sub", "{} - {} = {:?}", show(a), show(b), g);
            let (u, neg) = call!("sub", na.unsigned_sub(&nb));
            let d = if a >= b { a - b } else { b - a };
            check!(to_w(u.value) == d && neg == (a < b), "C22-unsigned-sub", "|{} - {}| = {} ({})", show(a), show(b), u.value, neg);
            if g.is_none() {
                o.n("no result");
            }
        }
        2 | 3 => {
            o.n("mul");
            let g = num_op!("mul", na.checked_mul(&nb));
            let raw = a * b;
            if raw + half < lim {
                let v = match g {
                    Some(v) => v,
                    None => return viol("C22-mul-none", format!("{} * {} has no result", show(a), show(b))),
                };
                // within one unit of the 18th decimal
                check!(v * one <= raw + one && v * one + one >= raw, "C22-mul", "{} * {} = {} (e-18)", show(a), show(b), v);
            } else {
                o.n("product beyond 256 bits");
                match g {
                    // decimals may go, the rest stays: never above, relatively at most 2^-68 below
                    Some(v) => check!(v * one <= raw + one && v * one + (raw >> 68usize) + one >= raw, "C22-mul-large", "{} * {} = {} (e-18)", show(a), show(b), v),
                    None => {
                        o.n("no result");
                        // (or the rounding correction alone does not fit any more)
                        check!(raw < lim || raw / one + (raw / one >> 67usize) + U1024::one() >= lim, "C22-mul-none", "{} * {} has no result", show(a), show(b));
                    }
                }
            }
        }
        4 | 5 => {
            o.n("div");
            let g = num_op!("div", na.checked_div(&nb));
            if b.is_zero() {
                o.n("divided by zero");
                o.n("no result");
                check!(g.is_none(), "C22-div-zero", "{} / 0 = {:?}", show(a), g);
            } else if a * one + half < lim {
                match g {
                    // one unit of the 18th decimal, or half a unit in the dividend's last place
                    Some(v) => check!(v * b <= a * one + half.max(b) && v * b + b >= a * one, "C22-div", "{} / {} = {} (e-18)", show(a), show(b), v),
                    None => return viol("C22-div-none", format!("{} / {} has no result", show(a), show(b))),
                }
            } else {
                o.n("dividend beyond 256 bits");
                match g {
                    // only whole units remain
                    Some(v) => check!(v * b <= a * one + half * one && v * b + one * b >= a * one, "C22-div-large", "{} / {} = {} (e-18)", show(a), show(b), v),
                    None => {
                        o.n("no result");
                        check!((a + half) * one / b + one >= lim || a + half >= lim, "C22-div-none", "{} / {} has no result", show(a), show(b));
                    }
                }
            }
        }
        6 => {
            o.n("floor");
            o.n("ceiling");
            let g = num_op!("floor", na.floor());
            check!(g == Some(a / one * one), "C22-floor", "floor {} = {:?}", show(a), g);
            let g = num_op!("ceiling", na.ceiling());
            let want = ceil_div(a, one) * one;
            match g {
                Some(v) => check!(v == want, "C22-ceiling", "ceiling {} = {}", show(a), v),
                None => {
                    o.n("no result");
                    check!(a + one >= lim, "C22-ceiling-none", "ceiling {} has no result", show(a));
                }
            }
        }
        7 => {
            o.n("compare");
            let (lt, gt, le, ge) = call!("compare", (na.less_than(&nb), na.greater_than(&nb), na.less_than_or_equal(&nb), na.greater_than_or_equal(&nb)));
            check!(lt == (a < b) && gt == (a > b) && le == (a <= b) && ge == (a >= b), "C22-compare", "{} against {}: < {} > {} <= {} >= {}", show(a), show(b), lt, gt, le, ge);
            let d = if a >= b { a - b } else { b - a };
            let p = match r.below(3) {
                0 => d,
                1 => d + U1024::one(),
                _ => number(r),
            }
            .min(lim - U1024::one());
            let ae = call!("almost_eq", na.almost_eq(&nb, from_w(p)));
            check!(ae == (d < p), "C22-almost-eq", "{} and {} within {}: {}", show(a), show(b), show(p), ae);
        }
        8 => {
            o.n("to whole number");
            let g = call!("to_imprecise", na.to_imprecise());
            let want = if a + half < lim { to_u128((a + half) / one) } else { None };
            check!(g == want, "C22-to-imprecise", "{} as a whole number is {:?}", show(a), g);
            if g.is_none() {
                o.n("no result");
            }
            let v = (r.u64() as u128) << r.below(65) | r.u64() as u128;
            let n = call!("new", DFSPreciseNumber::new(v)).map(|n| to_w(n.value));
            check!(n == Some(w(v) * one), "C22-new", "{} becomes {:?}", v, n);
        }
        9 => {
            o.n("to spl number");
            let g = call!("to_spl_precise_number", na.to_spl_precise_number());
            match g {
                Some(x) => {
                    let mut b = [0u8; 32];
                    x.value.to_little_endian(&mut b);
                    let v = U1024::from_little_endian(&b) * w(1_000_000);
                    let t = w(1_000_000);
                    check!(v <= a + t && v + t >= a, "C22-to-spl", "{} becomes {}e-12", show(a), v / t);
                }
                None => {
                    o.n("no result");
                    check!(a / one >= (U1024::one() << 128), "C22-to-spl-none", "{} has no 12-decimal form", show(a));
                }
            }
        }
        _ => {
            let up = op == 11;
            o.n(if up { "square root up" } else { "square root down" });
            let mut a = a;
            if r.chance(1, 6) {
                // arguments whose upper 64 bits are all ones
                let sh = r.below(192) as usize;
                a = (((U1024::one() << 64) - U1024::one()) << sh) + bits_value(r, sh as u64);
                o.n("rounded-up argument carries");
            }
            let g = num_op!("sqrt", num(a).sqrt_u64(up));
            let v = match g {
                Some(v) => v,
                None => return viol("C22-sqrt-none", format!("the root of {} has no result", show(a))),
            };
            // exact: root = sqrt(a*1e18) in units of 1e-18
            let sq = a * one;
            let root = isqrt(sq);
            if root * root == sq {
                o.n("perfect square");
            }
            let slack = (root >> 30usize) + w(2);
            if up {
                check!(v * v >= sq, "C22-sqrt-up", "the root of {} rounded up is {}e-18, below the true root {}e-18", show(a), v, root);
                check!(v <= root + slack, "C22-sqrt-up-precision", "the root of {} rounded up is {}e-18, the true root {}e-18", show(a), v, root);
            } else {
                check!(v * v <= sq, "C22-sqrt-down", "the root of {} rounded down is {}e-18, above the true root {}e-18", show(a), v, root);
                check!(v + slack >= root, "C22-sqrt-down-precision", "the root of {} rounded down is {}e-18, the true root {}e-18", show(a), v, root);
            }
        }
    }
    o.sample(|| format!("op {} on {} and {}", op, show(a), show(b)));
    Ok(())
}

// ------------------------------------------------------------------ C25
fn c25(r: &mut Rng, o: &mut Obs, i: u64) -> R {
    match i % 4 {
        0 | 1 => c25_swap(r, o),
        2 => c25_single(r, o),
        _ => c25_format(r, o),
    }
}
fn near_eq(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    (got - want).abs() <= want.abs() * rel + abs
}
/// what a net input yields by the rule of the curve, for the side it enters (None: no clear answer)
fn rule_out(c: &Curve, a_in: bool, net: u64, st: &pools::St) -> Option<(f64, f64)> {
    let tol;
    let out = match *c {
        Curve::Linear { .. } => {
            let l = lin::Lin::of(c);
            let e = lin::to_f64k(l.pos_err(st.a as u128)).max(lin::to_f64k(l.pos_err(st.a as u128 + net as u128)));
            let pos = lin::to_f64k(l.inv(w(st.a as u128)));
            let f = |b: f64| l.slope() * b * b / 2.0 + l.p0() * b;
            if a_in {
                // (trades that use up the pool are rounded, C11)
                if f(pos + st.b as f64) - f(pos) < net as f64 * 1.000001 + 2.0 {
                    return None;
                }
                let to = lin::to_f64k(l.inv(w(st.a as u128 + net as u128)));
                if to - pos + 2.0 + 4.0 * e > st.b as f64 {
                    return None;
                }
                tol = 2.0 + 4.0 * e;
                to - pos
            } else {
                if net as f64 + 2.0 + 4.0 * e > pos {
                    return None;
                }
                if f(pos - net as f64) < 2.0 + 1e-6 * st.a as f64 {
                    return None;
                }
                tol = 2.0 + (2.0 + 4.0 * e) * l.price(pos) + 1e-9 * st.a as f64;
                f(pos) - f(pos - net as f64)
            }
        }
        Curve::Stable(amp) => {
            let (x, y) = if a_in { (st.a, st.b) } else { (st.b, st.a) };
            let e = f(pools::d_err(amp, st.a, st.b)?) / 2f64.powi(pools::DK as i32);
            if x.max(y) / x.min(y).max(1) > 1000 || st.a.min(st.b) < 1000 {
                return None;
            }
            let d = pools::stable_d_of(amp, st.a, st.b);
            let left = f(pools::stable_y(amp, x as u128 + net as u128, d)?) / 2f64.powi(pools::DK as i32);
            tol = 4.0 + e * 2.0;
            y as f64 - left
        }
        _ => {
            let (_, out) = pools::exact_swap(c, a_in, net as u128, st).ok()??;
            tol = 0.0;
            out as f64
        }
    };
    Some((out, tol))
}
fn c25_swap(r: &mut Rng, o: &mut Obs) -> R {
    let sc = Scen::new(r, 1, true);
    let p = sc.w.pools[0].clone();
    let u = &sc.users[0];
    let st = sc.st(0);
    o.n(p.curve.kind());
    let a_in = r.chance(1, 2);
    o.n(if a_in { "forward" } else { "reversed" });
    let (ta, tb) = (u.tok[&p.mint_a], u.tok[&p.mint_b]);
    let (src, dst) = if a_in { (ta, tb) } else { (tb, ta) };
    let amount = match p.curve {
        Curve::Price(pr) => {
            if a_in {
                pr * r.range(1, st.b.max(2) / 2)
            } else {
                r.range(1, (st.a / pr).max(1))
            }
        }
        Curve::Linear { .. } => {
            if a_in {
                r.logpos(50)
            } else {
                r.logpos(22)
            }
        }
        _ => r.range(1, (if a_in { st.a } else { st.b }).max(4) / 2),
    };
    let mut l = sc.w.l.clone();
    let rec = l.exec(&swap_ix(&p, u.key, src, dst, a_in, amount, 0));
    let ctx = || format!("{:?} A={} B={} {} of {} in", p.curve, st.a, st.b, amount, if a_in { "A" } else { "B" });
    if let Outcome::Panic(m) = &rec.outcome {
        return viol("C25-abort", format!("panicked: {}: {}", m, ctx()));
    }
    let key = &[0, p.curve.type_byte() as u64, a_in as u64, amount, st.a, st.b];
    if let Some((want, tol)) = rule_out(&p.curve, a_in, amount, &st) {
        let vault = if a_in { st.b } else { st.a };
        let rel = if tol == 0.0 { 1e-15 } else { 1e-7 };
        if rec.outcome.ok() {
            let got = delta(&rec, &dst);
            check!(-delta(&rec, &p.vault(!a_in)) == got && delta(&rec, &p.vault(a_in)) == -delta(&rec, &src) && delta(&rec, &src) <= 0, "C25-sides", "tokens moved between the wrong sides: {}", ctx());
            check!(near_eq(got as f64, want, rel, tol), "C25-direction", "paid {} where the rule for that side gives {}: {}", got, want, ctx());
            let mirrored = rule_out(&p.curve, !a_in, amount, &st);
            if let Some((m, t)) = mirrored {
                if !near_eq(got as f64, m, 1e-6, t + tol + 1.0) {
                    o.n("mirrored price would differ");
                }
            }
            o.eval(true, key);
        } else if want > tol * 2.0 + 1.0 && want + tol + 1.0 < vault as f64 && vault as f64 > 1e3 && !p.curve.is_linear() {
            return viol("C25-refused", format!("refused ({:?}): {}", rec.outcome, ctx()));
        }
    }
    // the vaults one way round, the user's accounts the other
    let mut l = sc.w.l.clone();
    let rec = l.exec(&swap_ix(&p, u.key, dst, src, a_in, amount, 0));
    check!(!rec.outcome.ok(), "C25-crossed", "a swap with the user's accounts crossed was accepted: {}", ctx());
    check!(l.accts == sc.w.l.accts, "C25-crossed-effects", "a refused swap changed something");
    o.n("vaults crossed with user accounts");
    o.eval(true, &[1, p.curve.type_byte() as u64, a_in as u64, amount, st.a, st.b]);
    o.sample(ctx);
    Ok(())
}
fn c25_single(r: &mut Rng, o: &mut Obs) -> R {
    let sc = Scen::new(r, 1, true);
    let p = sc.w.pools[0].clone();
    if p.curve.is_linear() {
        return Ok(());
    }
    o.n(p.curve.kind());
    let u = &sc.users[0];
    let st = sc.st(0);
    let a = r.chance(1, 2);
    let dep = r.chance(1, 2);
    o.n(if a { "single-sided token A" } else { "single-sided token B" });
    let (v, other) = if a { (st.a, p.vault_b) } else { (st.b, p.vault_a) };
    let t = u.tok[&p.mint(a)];
    let pt = u.tok[&p.pool_mint];
    let x = r.range(1, v.max(8) / 4);
    let ix = if dep { deposit_single_ix(&p, u.key, t, pt, x, 0) } else { withdraw_single_ix(&p, u.key, pt, t, x, u64::MAX) };
    let mut l = sc.w.l.clone();
    let rec = l.exec(&ix);
    let ctx = || format!("{:?} A={} B={} supply={} {} {} of {}", p.curve, st.a, st.b, st.s, if dep { "depositing" } else { "withdrawing" }, x, if a { "A" } else { "B" });
    if let Outcome::Panic(m) = &rec.outcome {
        return viol("C25-abort", format!("panicked: {}: {}", m, ctx()));
    }
    o.eval(true, &[2, p.curve.type_byte() as u64, a as u64, dep as u64, x, st.a, st.b]);
    if !rec.outcome.ok() {
        return Ok(());
    }
    let sign = if dep { 1 } else { -1 };
    check!(delta(&rec, &p.vault(a)) == sign * x as i128 && delta(&rec, &t) == -sign * x as i128 && delta(&rec, &other) == 0, "C25-single-sides", "moved {} in its own vault, {} in the other: {}", delta(&rec, &p.vault(a)), delta(&rec, &other), ctx());
    // pool tokens by the side the tokens are on
    let rule = |a: bool| -> Option<f64> {
        let v = if a { st.a } else { st.b };
        match p.curve {
            Curve::Price(pr) => {
                let total = w(st.a as u128) + w(st.b as u128) * w(pr as u128);
                let val = w(x as u128) * w(if a { 1 } else { pr as u128 });
                Some(f(val) * st.s as f64 / f(total))
            }
            Curve::Cp => {
                let q = x as f64 / v as f64;
                if !dep && q > 1.0 {
                    return None;
                }
                Some(st.s as f64 * if dep { (1.0 + q).sqrt() - 1.0 } else { 1.0 - (1.0 - q).sqrt() })
            }
            _ => None,
        }
    };
    if let Some(want) = rule(a) {
        let got = delta(&rec, &pt).unsigned_abs() as f64;
        check!(near_eq(got, want, 1e-3, 3.0 + 1e-6 * st.s as f64), "C25-single-direction", "{} pool tokens where the rule for that side gives {}: {}", got, want, ctx());
        if let Some(m) = rule(!a) {
            if !near_eq(got, m, 2e-3, 6.0 + 2e-6 * st.s as f64) {
                o.n("mirrored price would differ");
            }
        }
    }
    Ok(())
}
fn bytes_of(disc: &[u8; 8], args: &[u64]) -> Vec<u8> {
    let mut d = disc.to_vec();
    for a in args {
        d.extend_from_slice(&a.to_le_bytes());
    }
    d
}
fn c25_format(r: &mut Rng, o: &mut Obs) -> R {
    let mut sc = Scen::new(r, 1, true);
    if r.chance(1, 4) {
        return c25_create(r, o, &mut sc);
    }
    let p = sc.w.pools[0].clone();
    let op = op_of(r);
    let mut ix = sc.honest(r, 0, op, 0);
    let which = match op {
        Op::Swap => 2,
        Op::DepositAll => 3,
        Op::WithdrawAll => 4,
        Op::DepositSingle => 5,
        Op::WithdrawSingle => 6,
    };
    let (_, disc, n) = ABI[which];
    let mut args: Vec<u64> = ix.data[8..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    ix.data = bytes_of(&disc, &args);
    let start = sc.w.l.clone();
    let go = |ix: &Ix, data: Vec<u8>| {
        let mut l = start.clone();
        let rec = l.exec(&Ix { data, ..ix.clone() });
        let same = l.accts == start.accts;
        (rec, same)
    };
    let (rec, _) = go(&ix, ix.data.clone());
    let ctx = || format!("{:?} {:?} with {:?}", op, p.curve, args);
    let key = |k: u64| [3, k, op as u64, p.curve.type_byte() as u64, args[0]];
    if rec.outcome.ok() {
        o.n("argument order");
        o.eval(true, &key(0));
        let roles = roles(op);
        let gone = |i: usize| (-delta(&rec, &ix.metas[roles.src[i]].key)) as u64;
        let came = |i: usize| delta(&rec, &ix.metas[roles.dst[i]].key) as u64;
        // the first argument is the amount, the others are limits: exact ones pass, one tighter fails
        let (amount_right, limits): (bool, Vec<(u64, bool)>) = match op {
            Op::Swap => (gone(0) <= args[0] && (p.curve.is_linear() || matches!(p.curve, Curve::Price(_)) || gone(0) > 0), vec![(came(0), true)]),
            Op::DepositAll => (came(0) == args[0], vec![(gone(0), false), (gone(1), false)]),
            Op::WithdrawAll => (gone(0) == args[0], vec![(came(0), true), (came(1), true)]),
            Op::DepositSingle => (gone(0) == args[0], vec![(came(0), true)]),
            Op::WithdrawSingle => (came(0) == args[0], vec![(gone(0), false)]),
        };
        check!(amount_right, "C25-first-argument", "the first argument is not the amount: {}", ctx());
        let mut exact = vec![args[0]];
        exact.extend(limits.iter().map(|x| x.0));
        let (rec2, _) = go(&ix, bytes_of(&disc, &exact));
        check!(rec2.outcome.ok(), "C25-limits-exact", "limits met exactly in published order are refused ({:?}): {} as {:?}", rec2.outcome, ctx(), exact);
        for (i, (v, least)) in limits.iter().enumerate() {
            let t = if *least { v.checked_add(1) } else { v.checked_sub(1) };
            // a maximum of zero is refused anyway, a nothing paid out is fine
            if let Some(t) = t {
                let mut tight = exact.clone();
                tight[i + 1] = t;
                let (rec3, same) = go(&ix, bytes_of(&disc, &tight));
                check!(!rec3.outcome.ok() && same, "C25-limit-order", "argument {} does not limit what its place says: {} as {:?}", i + 1, ctx(), tight);
            }
        }
    }
    // truncated
    let cut = r.usize(8 + 8 * n);
    let (rec, same) = go(&ix, ix.data[..cut].to_vec());
    check!(!rec.outcome.ok() && same && !matches!(rec.outcome, Outcome::Panic(_)), "C25-truncated", "{} bytes of {} were accepted ({:?}): {}", cut, ix.data.len(), rec.outcome, ctx());
    o.n("truncated");
    o.eval(true, &key(100 + cut as u64));
    // unknown names
    let mut d = disc;
    match r.below(3) {
        0 => d[r.usize(8)] ^= 1 << r.below(8),
        1 => d = r.u64().to_le_bytes(),
        _ => d.reverse(),
    }
    if !ABI.iter().any(|x| x.1 == d) && d != IDL {
        args.extend_from_slice(&[1, 1, 1]);
        let (rec, same) = go(&ix, bytes_of(&d, &args));
        check!(!rec.outcome.ok() && same, "C25-unknown-name", "the unknown name {:?} is accepted", d);
        o.n("unknown name");
        o.eval(true, &[4, u64::from_le_bytes(d)]);
    }
    // the one-byte tags of the program this one derives from
    let mut old = vec![r.below(8) as u8];
    for a in &args {
        old.extend_from_slice(&a.to_le_bytes());
    }
    let (rec, same) = go(&ix, old.clone());
    check!(!rec.outcome.ok() && same, "C25-old-tag", "the old-style data {:?} is accepted", old);
    o.n("old-style tag");
    // another instruction's name does not make these accounts do something else with the same pool's roles
    Ok(())
}
fn c25_create(r: &mut Rng, o: &mut Obs, sc: &mut Scen) -> R {
    let mut fr = || {
        let d = r.logpos(60).max(3);
        (r.range(1, d - 1), d)
    };
    let fees = Fees { trade: fr(), owner: fr(), withdraw: fr(), host: fr() };
    let curve = if r.chance(1, 2) { Curve::Price(r.logpos(60)) } else { lin::params(r).curve() };
    let fees = if curve.is_linear() { Fees::linear() } else { fees };
    let (p, dest) = sc.w.prepare_pool(r, curve, fees, if curve.is_linear() { 0 } else { 5 }, 7, None);
    let mut ix = init_ix(&p, dest);
    ix.data = match curve {
        Curve::Linear { sn, sd, pn, pd } => bytes_of(&ABI[1].1, &[sn, sd, pn, pd]),
        Curve::Price(x) => bytes_of(&ABI[0].1, &[fees.trade.0, fees.trade.1, fees.owner.0, fees.owner.1, fees.withdraw.0, fees.withdraw.1, fees.host.0, fees.host.1, x]),
        _ => vec![],
    };
    let n = r.usize(ix.data.len());
    let mut l = sc.w.l.clone();
    let rec = l.exec(&Ix { data: ix.data[..n].to_vec(), ..ix.clone() });
    check!(!rec.outcome.ok() && l.accts == sc.w.l.accts, "C25-truncated", "a creation with {} bytes of {} was accepted", n, ix.data.len());
    let rec = sc.w.l.exec(&ix);
    check!(rec.outcome.ok(), "C25-create", "a creation in the published format is refused ({:?}): {:?} {:?}", rec.outcome, curve, fees);
    check!(rec.post[&p.swap].data == p.state_bytes(), "C25-create-order", "arguments landed in the wrong places: {:?} {:?}", curve, fees);
    o.n("initialize in published order");
    o.n("truncated");
    o.eval(true, &[5, fees.trade.0, fees.host.1, curve.type_byte() as u64, n as u64]);
    Ok(())
}
