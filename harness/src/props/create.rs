//! C06, C07, C23: pool creation.
use crate::check;
use crate::pools;
use crate::report::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use solana_program::program_option::COption;
use solana_program::pubkey::Pubkey;
use spl_token::state::AccountState;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::{CurveType, SwapCurve};
use token_bonding_curve::processor::Processor;

const ASSUME: &[&str] = &[
    "creation runs through the program's entry point (constant price, linear) or its public Processor::process_initialize (the curves and constraints no instruction reaches in the default build) on an in-process ledger with the real token program code",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "a creation request, sound or with up to three things wrong, whose outcome was compared with the conditions evaluated on the ledger; distinct (conditions broken, parameters, balances)", quick: 400_000, thorough: 5_000_000, need: &["sound and created", "unsound and refused", "one thing wrong", "pool account did not sign", "already in use", "wrong authority", "vault owner", "vault delegate", "vault close authority", "same mints", "mint authority", "pool supply", "freeze authority", "fee account mint", "recipient mint", "fee account owner", "recipient owner", "improper fee", "curve parameter", "starting balances", "not a token account", "wrong program owns an account", "slope of exactly 1e-18", "constant_product", "stable", "offset", "linear", "constant_price", "self-made authority signs"], assumptions: ASSUME, case: c06 },
        Prop { id: "C07", rule: "a created pool whose bytes, supply and recipient were compared with the request, or an attempt to initialize it again; distinct (parameters, accounts, attempt)", quick: 150_000, thorough: 2_000_000, need: &["created", "attempts to initialize again", "with fresh accounts", "after trading", "bump below 255", "linear", "constant_price", "constant_product", "stable", "offset"], assumptions: ASSUME, case: c07 },
        Prop { id: "C23", rule: "a constrained creation request compared with the constraint rules; distinct (constraints, fees, curve, owner)", quick: 400_000, thorough: 5_000_000, need: &["created under constraints", "refused by constraints", "wrong fee owner", "curve type not allowed", "numerator above the required one", "numerator below the required one", "denominator differs", "host fee differs", "constraint owner is no key", "no curve type allowed"], assumptions: ASSUME, case: c23 },
    ]
}
/// in the binary built with the program's `production` feature
pub fn production() -> Vec<Prop> {
    vec![Prop { id: "C23P", rule: "a creation instruction sent to the production build and compared with the published constraints; distinct (fees, curve, owner)", quick: 60_000, thorough: 1_500_000, need: &["created", "refused", "linear refused"], assumptions: ASSUME, case: c23p }]
}

fn proper(f: (u64, u64)) -> bool {
    (f.0 == 0 && f.1 == 0) || f.0 < f.1
}
fn sound_params(c: &Curve) -> bool {
    match *c {
        Curve::Cp => true,
        Curve::Price(p) => p != 0,
        Curve::Stable(_) => true,
        Curve::Offset(x) => x != 0,
        Curve::Linear { sn, sd, pd, .. } => sn != 0 && sd != 0 && pd != 0 && sn as u128 * 1_000_000_000_000_000_000 >= sd as u128,
    }
}
fn sound_balances(c: &Curve, a: u64, b: u64) -> bool {
    match *c {
        Curve::Cp | Curve::Stable(_) => a > 0 && b > 0,
        Curve::Price(_) | Curve::Offset(_) => a > 0,
        Curve::Linear { .. } => a == 0 && b > 0,
    }
}
fn token_account(l: &Ledger, k: &Pubkey) -> Option<spl_token::state::Account> {
    l.accts.get(k).and_then(tok_acc)
}
/// the documented conditions, read off the ledger; Err names the first broken one
fn conditions(l: &Ledger, ix: &Ix, c: &Curve, f: &Fees, entry: bool) -> Result<(), &'static str> {
    let k = |i: usize| ix.metas[i].key;
    if entry && !ix.metas[0].signer {
        return Err("pool account did not sign");
    }
    let sa = l.get(&k(0));
    if is_pool(sa).is_some() {
        return Err("already in use");
    }
    if sa.owner != pid() || sa.data.len() != STATE_LEN {
        return Err("pool account not of this program");
    }
    let (auth, _) = Pubkey::find_program_address(&[k(0).as_ref()], &pid());
    if k(1) != auth {
        return Err("authority");
    }
    if k(7) != token_program() {
        return Err("token program");
    }
    let va = token_account(l, &k(2)).ok_or("vault a")?;
    let vb = token_account(l, &k(3)).ok_or("vault b")?;
    let fa = token_account(l, &k(5)).ok_or("fee account")?;
    let da = token_account(l, &k(6)).ok_or("recipient")?;
    let m = mint_acc(l.get(&k(4))).ok_or("mint")?;
    if va.owner != auth || vb.owner != auth {
        return Err("vault owner");
    }
    if va.delegate.is_some() || vb.delegate.is_some() {
        return Err("delegate");
    }
    if va.close_authority.is_some() || vb.close_authority.is_some() {
        return Err("close authority");
    }
    if va.mint == vb.mint {
        return Err("same mints");
    }
    if m.mint_authority != COption::Some(auth) {
        return Err("mint authority");
    }
    if m.supply != 0 {
        return Err("supply");
    }
    if m.freeze_authority.is_some() {
        return Err("freeze authority");
    }
    if fa.mint != k(4) || da.mint != k(4) {
        return Err("pool token account mint");
    }
    if da.state == AccountState::Frozen {
        return Err("recipient frozen");
    }
    if fa.owner == auth || da.owner == auth {
        return Err("pool token account owner");
    }
    if !(proper(f.trade) && proper(f.owner) && proper(f.withdraw) && proper(f.host)) {
        return Err("fees");
    }
    if !sound_params(c) {
        return Err("curve parameters");
    }
    if !sound_balances(c, va.amount, vb.amount) {
        return Err("balances");
    }
    Ok(())
}

fn odd_fee(r: &mut Rng) -> (u64, u64) {
    match r.below(8) {
        0 => (1, 0),
        1 => (1, 1),
        2 => (u64::MAX, u64::MAX),
        3 => (u64::MAX, u64::MAX - 1),
        4 => (r.logpos(64), 0),
        5 => {
            let d = r.amount();
            (d, d)
        }
        6 => {
            let d = r.amount();
            (d.saturating_add(1), d)
        }
        _ => (r.amount(), r.amount()),
    }
}
fn some_curve(r: &mut Rng, entry: bool) -> Curve {
    match r.below(if entry { 2 } else { 5 }) {
        0 => Curve::Price(pools::price(r)),
        1 => crate::lin::params(r).curve(),
        k => pools::curve(r, [0, 2, 3][k as usize - 2]),
    }
}
fn start_balances(r: &mut Rng, c: &Curve) -> (u64, u64) {
    let a = r.amount().max(1);
    let b = r.amount().max(1);
    match c {
        Curve::Linear { .. } => (0, b),
        Curve::Price(_) | Curve::Offset(_) => (a, if r.chance(1, 3) { 0 } else { b }),
        _ => (a, b),
    }
}
pub fn lib_curve(c: &Curve) -> SwapCurve {
    use token_bonding_curve::curve::*;
    match *c {
        Curve::Cp => SwapCurve { curve_type: CurveType::ConstantProduct, calculator: Box::new(constant_product::ConstantProductCurve {}) },
        Curve::Price(x) => SwapCurve { curve_type: CurveType::ConstantPrice, calculator: Box::new(constant_price::ConstantPriceCurve { token_b_price: x }) },
        Curve::Stable(x) => SwapCurve { curve_type: CurveType::Stable, calculator: Box::new(stable::StableCurve { amp: x }) },
        Curve::Offset(x) => SwapCurve { curve_type: CurveType::Offset, calculator: Box::new(offset::OffsetCurve { token_b_offset: x }) },
        Curve::Linear { sn, sd, pn, pd } => SwapCurve {
            curve_type: CurveType::LinearPrice,
            calculator: Box::new(linear_price::LinearPriceCurve { slope_numerator: sn, slope_denominator: sd, initial_token_a_price_numerator: pn, initial_token_a_price_denominator: pd }),
        },
    }
}
fn create(l: &mut Ledger, ix: &Ix, p: &Pool, entry: bool, cons: Option<SwapConstraints>) -> Record {
    if entry {
        l.exec(ix)
    } else {
        let c = lib_curve(&p.curve);
        let f = p.fees.lib();
        l.exec_with(ix, move |id, accts, _| Processor::process_initialize(id, f, c, accts, &cons))
    }
}
fn not_crash(rec: &Record, id: &str, what: impl Fn() -> String) -> R {
    match &rec.outcome {
        Outcome::Panic(m) => viol(format!("{}-abort", id), format!("creation panicked: {} ({})", m, what())),
        _ => Ok(()),
    }
}
/// everything a created pool must be
fn created_right(rec: &Record, ix: &Ix, p: &Pool, dest: &Pubkey, id: &str) -> R {
    let want = Pool { vault_a: ix.metas[2].key, vault_b: ix.metas[3].key, pool_mint: ix.metas[4].key, fee_acct: ix.metas[5].key, ..p.clone() };
    let mut want = want;
    want.mint_a = tok_acc(&rec.post[&want.vault_a]).map(|t| t.mint).unwrap_or_default();
    want.mint_b = tok_acc(&rec.post[&want.vault_b]).map(|t| t.mint).unwrap_or_default();
    let bytes = want.state_bytes();
    let got = &rec.post[&p.swap].data;
    if *got != bytes {
        let at = (0..STATE_LEN).find(|i| got.get(*i) != bytes.get(*i)).unwrap_or(0);
        return viol(format!("{}-recorded", id), format!("creating {:?} with fees {:?}: stored byte {} is {} instead of {}", p.curve, p.fees, at, got[at], bytes[at]));
    }
    check!(rec.post[&p.swap].owner == pid() && got.len() == STATE_LEN, format!("{}-recorded", id), "pool account owner or size changed");
    let m = match mint_acc(&rec.post[&want.pool_mint]) {
        Some(m) => m,
        None => return viol(format!("{}-supply", id), "pool mint destroyed"),
    };
    check!(m.supply == INITIAL_SUPPLY, format!("{}-supply", id), "pool token supply after creation is {}", m.supply);
    check!(delta(rec, dest) == INITIAL_SUPPLY as i128, format!("{}-supply", id), "the recipient got {} pool tokens", delta(rec, dest));
    for (k, _) in &rec.pre {
        if k != dest && k != &p.swap {
            check!(delta(rec, k) == 0, format!("{}-supply", id), "another account's balance changed at creation");
        }
    }
    check!(m.mint_authority == COption::Some(p.authority), format!("{}-supply", id), "pool mint authority changed");
    Ok(())
}

fn c06(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let entry = r.chance(1, 2);
    let mut curve = some_curve(r, entry);
    let mut fees = match curve {
        Curve::Linear { .. } => Fees::linear(),
        _ => Fees::random(r),
    };
    let mut wrong: Vec<&'static str> = vec![];
    let n = match r.below(8) {
        0 | 1 => 0,
        2 => 2,
        3 => 3,
        _ => 1,
    };
    let picks: Vec<u64> = (0..n).map(|_| r.below(24)).collect();
    let (mut a, mut b) = start_balances(r, &curve);
    // parameters first, they shape the request
    for k in &picks {
        match k {
            0 => {
                wrong.push("curve parameter");
                curve = match curve {
                    Curve::Price(_) => Curve::Price(0),
                    Curve::Offset(_) => Curve::Offset(0),
                    Curve::Linear { sn, sd, pn, pd } => match r.below(6) {
                        0 => Curve::Linear { sn: 0, sd, pn, pd },
                        1 => Curve::Linear { sn, sd: 0, pn, pd },
                        2 => Curve::Linear { sn, sd, pn, pd: 0 },
                        3 => Curve::Linear { sn: r.range(1, 18), sd: u64::MAX - r.below(1_000_000), pn, pd },
                        4 => {
                            // around the smallest slope
                            let n = r.range(1, 18);
                            let d = n * 1_000_000_000_000_000_000;
                            Curve::Linear { sn: n, sd: match r.below(3) {
                                0 => d,
                                1 => d + 1,
                                _ => d - 1,
                            }, pn, pd }
                        }
                        _ => Curve::Linear { sn: 0, sd: 0, pn: 0, pd: 0 },
                    },
                    c => c,
                };
            }
            1 => {
                if !curve.is_linear() || !entry {
                    wrong.push("improper fee");
                    let x = odd_fee(r);
                    match r.below(4) {
                        0 => fees.trade = x,
                        1 => fees.owner = x,
                        2 => fees.withdraw = x,
                        _ => fees.host = x,
                    }
                }
            }
            2 | 3 => {
                wrong.push("starting balances");
                match r.below(5) {
                    0 => a = 0,
                    1 => b = 0,
                    2 => a = 1,
                    3 => {
                        a = 0;
                        b = 0
                    }
                    _ => a = r.amount(),
                }
            }
            _ => {}
        }
    }
    if let Curve::Linear { sn, sd, .. } = curve {
        if sd != 0 && sn as u128 * 1_000_000_000_000_000_000 == sd as u128 {
            o.n("slope of exactly 1e-18");
        }
    }
    let mut w = World::new();
    let (mut p, mut dest) = w.prepare_pool_any(r, curve, fees, a, b);
    w.adorn(r, &p, &dest);
    let mut ix = init_ix_any(&p, dest);
    let bad_owner = |r: &mut Rng, w: &mut World| match r.below(3) {
        0 => w.wallet(r),
        1 => p.swap,
        _ => pid(),
    };
    for k in &picks {
        match k {
            4 => {
                ix.metas[0].signer = false;
                wrong.push("pool account did not sign");
            }
            5 => {
                // already in use, by itself or by anything valid
                let d = match r.below(2) {
                    0 => p.state_bytes(),
                    _ => {
                        let mut d = p.state_bytes();
                        for i in 3..291 {
                            d[i] = r.below(256) as u8;
                        }
                        d
                    }
                };
                w.l.accts.get_mut(&p.swap).unwrap().data = d;
                wrong.push("already in use");
            }
            6 => {
                // another address as the authority; in half the cases it really owns everything
                let k = match r.below(3) {
                    0 => w.wallet(r),
                    1 => {
                        let mut k = None;
                        for s in (0..p.bump).rev() {
                            if let Ok(x) = Pubkey::create_program_address(&[p.swap.as_ref(), &[s]], &pid()) {
                                k = Some(x);
                                break;
                            }
                        }
                        match k {
                            Some(k) => k,
                            None => continue,
                        }
                    }
                    _ => {
                        let other = w.key(r);
                        Pubkey::find_program_address(&[other.as_ref()], &pid()).0
                    }
                };
                if !w.l.accts.contains_key(&k) {
                    w.put(k, solana_program::system_program::id(), vec![]);
                }
                ix.metas[1].key = k;
                if r.chance(2, 3) {
                    w.edit_tok(&p.vault_a, |t| t.owner = k);
                    w.edit_tok(&p.vault_b, |t| t.owner = k);
                    w.edit_mint(&p.pool_mint, |m| m.mint_authority = COption::Some(k));
                    if k.is_on_curve() || r.chance(1, 4) {
                        ix.metas[1].signer = k.is_on_curve();
                    }
                    // any wallet key may sign
                    if w.l.get(&k).owner == solana_program::system_program::id() && Pubkey::find_program_address(&[p.swap.as_ref()], &pid()).0 != k {
                        ix.metas[1].signer = true;
                    }
                    o.n("self-made authority signs");
                }
                wrong.push("wrong authority");
            }
            7 | 8 => {
                let v = if *k == 7 { p.vault_a } else { p.vault_b };
                let x = bad_owner(r, &mut w);
                w.edit_tok(&v, |t| t.owner = x);
                wrong.push("vault owner");
            }
            9 | 10 => {
                let v = if *k == 9 { p.vault_a } else { p.vault_b };
                let d = if r.chance(1, 3) { p.authority } else { w.wallet(r) };
                let n = if r.chance(1, 2) { 0 } else { r.amount() };
                w.edit_tok(&v, |t| {
                    t.delegate = COption::Some(d);
                    t.delegated_amount = n;
                });
                wrong.push("vault delegate");
            }
            11 | 12 => {
                let v = if *k == 11 { p.vault_a } else { p.vault_b };
                let d = if r.chance(1, 3) { p.authority } else { w.wallet(r) };
                w.edit_tok(&v, |t| t.close_authority = COption::Some(d));
                wrong.push("vault close authority");
            }
            13 => {
                if r.chance(1, 2) {
                    w.edit_tok(&p.vault_b, |t| t.mint = p.mint_a);
                } else if a == b || r.chance(1, 2) {
                    ix.metas[3].key = ix.metas[2].key;
                } else {
                    ix.metas[2].key = ix.metas[3].key;
                }
                wrong.push("same mints");
            }
            14 => {
                let x = match r.below(3) {
                    0 => COption::None,
                    1 => COption::Some(w.wallet(r)),
                    _ => COption::Some(p.swap),
                };
                w.edit_mint(&p.pool_mint, |m| m.mint_authority = x);
                wrong.push("mint authority");
            }
            15 => {
                let s = if r.chance(1, 2) { 1 } else { r.amount().max(1) };
                w.edit_mint(&p.pool_mint, |m| m.supply = s);
                let k = *r.pick(&[dest, p.fee_acct]);
                if r.chance(1, 2) {
                    w.set_amount(&k, s);
                }
                wrong.push("pool supply");
            }
            16 => {
                let x = if r.chance(1, 3) { p.authority } else { w.wallet(r) };
                w.edit_mint(&p.pool_mint, |m| m.freeze_authority = COption::Some(x));
                wrong.push("freeze authority");
            }
            17 => {
                let m = *r.pick(&[p.mint_a, p.mint_b]);
                w.edit_tok(&p.fee_acct, |t| t.mint = m);
                wrong.push("fee account mint");
            }
            18 => {
                let m = *r.pick(&[p.mint_a, p.mint_b]);
                w.edit_tok(&dest, |t| t.mint = m);
                wrong.push("recipient mint");
            }
            19 => {
                w.edit_tok(&p.fee_acct, |t| t.owner = p.authority);
                wrong.push("fee account owner");
            }
            20 => {
                w.edit_tok(&dest, |t| t.owner = p.authority);
                wrong.push("recipient owner");
            }
            21 => {
                // not a token account at all
                let k = *r.pick(&[p.vault_a, p.vault_b, p.pool_mint, p.fee_acct, dest]);
                match r.below(5) {
                    0 => w.edit_any(&k, |d| d.clear()),
                    1 => w.edit_any(&k, |d| {
                        d.pop();
                    }),
                    2 => w.edit_any(&k, |d| d.push(0)),
                    3 => w.edit_any(&k, |d| d.iter_mut().for_each(|x| *x = 0)),
                    _ => {
                        let i = ix.metas.iter().position(|m| m.key == k);
                        if let Some(i) = i {
                            ix.metas[i].key = if k == p.pool_mint { dest } else { p.mint_a };
                        }
                    }
                }
                wrong.push("not a token account");
            }
            22 => {
                // an account of another program with the right bytes
                let k = *r.pick(&[p.vault_a, p.vault_b, p.pool_mint, p.fee_acct, dest, p.swap]);
                let x = w.key(r);
                w.l.accts.get_mut(&k).unwrap().owner = x;
                wrong.push("wrong program owns an account");
            }
            23 => {
                match r.below(4) {
                    0 => {
                        // a token program of the attacker's with everything in it
                        let k = w.key(r);
                        w.l.accts.insert(k, Account { lamports: 1, data: vec![], owner: solana_program::bpf_loader::id(), executable: true });
                        for x in [p.vault_a, p.vault_b, p.pool_mint, p.fee_acct, dest] {
                            w.l.accts.get_mut(&x).unwrap().owner = k;
                        }
                        ix.metas[7].key = k;
                        wrong.push("token program");
                    }
                    1 => {
                        let n = *r.pick(&[0usize, 1, 323, 325, 165, 82, 400]);
                        w.edit_any(&p.swap, |d| d.resize(n, 0));
                        wrong.push("pool account size");
                    }
                    2 => {
                        // fee account and recipient the same, or the recipient owned by the fee owner: fine
                        ix.metas[5].key = ix.metas[6].key;
                        p.fee_acct = dest;
                    }
                    _ => {
                        let fo = p.fee_owner;
                        w.edit_tok(&dest, |t| t.owner = fo);
                    }
                }
            }
            _ => {}
        }
    }
    // two accounts of the request filled by one
    if r.chance(1, 30) {
        let i = r.usize(7);
        let j = r.usize(7);
        let k = ix.metas[j].key;
        ix.metas[i].key = k;
        if ix.metas[0].key != p.swap {
            ix.metas[0].signer = true;
        }
        dest = ix.metas[6].key;
        p.swap = ix.metas[0].key;
        p.fee_acct = ix.metas[5].key;
        let (a, b) = Pubkey::find_program_address(&[p.swap.as_ref()], &pid());
        p.authority = a;
        p.bump = b;
        wrong.push("one account twice");
    }
    for x in &wrong {
        o.n(x);
    }
    o.n(curve.kind());
    if wrong.len() == 1 {
        o.n("one thing wrong");
    }
    let verdict = conditions(&w.l, &ix, &curve, &fees, entry);
    let l0 = if verdict.is_err() { Some(w.l.clone()) } else { None };
    let rec = create(&mut w.l, &ix, &p, entry, None);
    let ctx = || format!("{:?} fees {:?} A={} B={} with {:?}", curve, fees, a, b, wrong);
    not_crash(&rec, "C06", ctx)?;
    o.eval(true, &[curve.type_byte() as u64, a, b, picks.iter().fold(1, |x, y| x * 31 + y), fees.trade.0 ^ fees.owner.1, u64::from_le_bytes(curve.params()[..8].try_into().unwrap()), u64::from_le_bytes(curve.params()[8..16].try_into().unwrap())]);
    match verdict {
        Ok(()) => {
            check!(rec.outcome.ok(), "C06-refused", "a sound request is refused ({:?}): {}", rec.outcome, ctx());
            created_right(&rec, &ix, &p, &dest, "C06")?;
            o.n("sound and created");
        }
        Err(e) => {
            check!(!rec.outcome.ok(), format!("C06-created-{}", e.replace(' ', "-")), "a pool was created although its {} is not sound: {}", e, ctx());
            check!(l0.map(|l| l.accts == w.l.accts).unwrap_or(true), "C06-effects", "a refused creation changed something");
            o.n("unsound and refused");
        }
    }
    o.sample(|| format!("{}: {:?}", ctx(), rec.outcome));
    Ok(())
}

fn init_ix_any(p: &Pool, dest: Pubkey) -> Ix {
    match p.curve {
        Curve::Linear { .. } | Curve::Price(_) => init_ix(p, dest),
        _ => Ix { program: pid(), metas: init_metas(p, dest), data: vec![] },
    }
}

// ------------------------------------------------------------------ C07
fn distinct_fees(r: &mut Rng) -> Fees {
    let mut d = || {
        let a = r.logpos(63);
        (r.range(0, a), a + 1)
    };
    Fees { trade: d(), owner: d(), withdraw: d(), host: d() }
}

fn c07(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let entry = r.chance(2, 3);
    let curve = some_curve(r, entry);
    let fees = if curve.is_linear() && entry {
        Fees::linear()
    } else if r.chance(1, 2) {
        distinct_fees(r)
    } else {
        Fees::random(r)
    };
    let (a, b) = start_balances(r, &curve);
    let mut w = World::new();
    let (p, dest) = w.prepare_pool_any(r, curve, fees, a, b);
    w.adorn(r, &p, &dest);
    if r.chance(1, 6) {
        // leftovers of an aborted life in the account
        let k = p.swap;
        let mut d = p.state_bytes();
        d[1] = 0;
        let keep = r.chance(1, 2);
        w.edit_any(&k, |x| {
            if keep {
                *x = d
            }
        });
    }
    let ix = init_ix_any(&p, dest);
    if p.bump < 255 {
        o.n("bump below 255");
    }
    o.n(curve.kind());
    let rec = create(&mut w.l, &ix, &p, entry, None);
    not_crash(&rec, "C07", || format!("{:?}", curve))?;
    check!(rec.outcome.ok(), "C07-refused", "a sound request is refused ({:?}): {:?} fees {:?} A={} B={}", rec.outcome, curve, fees, a, b);
    o.n("created");
    o.eval(true, &[curve.type_byte() as u64, a, b, fees.trade.0, fees.host.1, u64::from_le_bytes(curve.params()[..8].try_into().unwrap())]);
    created_right(&rec, &ix, &p, &dest, "C07")?;
    check!(Pubkey::create_program_address(&[p.swap.as_ref(), &[w.l.get(&p.swap).data[2]]], &pid()) == Ok(p.authority), "C07-bump", "the stored bump seed does not give the authority");
    o.sample(|| format!("{:?} fees {:?}: 324 bytes as requested", curve, fees));
    let bytes = w.l.get(&p.swap).data.clone();
    // some life
    if r.chance(1, 2) {
        let user = w.wallet(r);
        let ua = w.token(r, p.mint_a, user, u64::MAX - a);
        let ub = w.token(r, p.mint_b, user, u64::MAX - b);
        for _ in 0..r.below(3) {
            let buy = r.chance(2, 3);
            let (s, d) = if buy { (ua, ub) } else { (ub, ua) };
            let x = r.amount();
            let rec = w.l.exec(&swap_ix(&p, user, s, d, buy, x, 0));
            if rec.outcome.ok() {
                o.n("after trading");
            }
        }
        if r.chance(1, 4) {
            // down to nothing
            w.set_amount(&p.vault_a, 0);
            w.set_amount(&p.vault_b, 0);
            w.set_amount(&dest, 0);
            w.edit_mint(&p.pool_mint, |m| m.supply = 0);
        }
    }
    // again, by anyone, with anything
    for _ in 0..3 {
        let entry = r.chance(2, 3);
        let c2 = if r.chance(1, 3) && (!entry || matches!(curve, Curve::Price(_) | Curve::Linear { .. })) { curve } else { some_curve(r, entry) };
        let f2 = if c2.is_linear() { Fees::linear() } else { Fees::random(r) };
        let mut q = p.clone();
        q.curve = c2;
        q.fees = f2;
        let mut d2 = dest;
        if r.chance(2, 3) {
            // everything else fresh and sound
            let (a2, b2) = start_balances(r, &c2);
            q.mint_a = if r.chance(1, 2) { p.mint_a } else { w.mint(r, None) };
            q.mint_b = if r.chance(1, 2) { p.mint_b } else { w.mint(r, None) };
            q.vault_a = w.token(r, q.mint_a, p.authority, a2);
            q.vault_b = w.token(r, q.mint_b, p.authority, b2);
            q.pool_mint = w.mint(r, Some(p.authority));
            let who = w.wallet(r);
            q.fee_acct = w.token(r, q.pool_mint, who, 0);
            d2 = w.token(r, q.pool_mint, who, 0);
            o.n("with fresh accounts");
        } else if r.chance(1, 2) {
            w.edit_mint(&p.pool_mint, |m| m.supply = 0);
        }
        let ix = init_ix_any(&q, d2);
        let rec = create(&mut w.l, &ix, &q, entry, None);
        not_crash(&rec, "C07", || "again".into())?;
        o.n("attempts to initialize again");
        o.eval(true, &[c2.type_byte() as u64, a, b, f2.trade.0, rec.cpi.len() as u64, u64::from_le_bytes(c2.params()[..8].try_into().unwrap())]);
        check!(!rec.outcome.ok(), "C07-again", "a pool in use was initialized again: {:?} over {:?}", c2, curve);
        check!(w.l.get(&p.swap).data == bytes, "C07-again", "a refused second initialization changed the pool");
    }
    Ok(())
}

// ------------------------------------------------------------------ C23
fn type_of(c: &Curve) -> CurveType {
    match c {
        Curve::Cp => CurveType::ConstantProduct,
        Curve::Price(_) => CurveType::ConstantPrice,
        Curve::Stable(_) => CurveType::Stable,
        Curve::Offset(_) => CurveType::Offset,
        Curve::Linear { .. } => CurveType::LinearPrice,
    }
}
fn constrained(fees: &Fees, want: &Fees, types: &[CurveType], c: &Curve, fee_owner: &Pubkey, key: &str) -> Result<(), &'static str> {
    match key.parse::<Pubkey>() {
        Ok(k) if k == *fee_owner => {}
        Ok(_) => return Err("wrong fee owner"),
        Err(_) => return Err("constraint owner is no key"),
    }
    if !types.contains(&type_of(c)) {
        return Err("curve type not allowed");
    }
    if fees.trade.1 != want.trade.1 || fees.owner.1 != want.owner.1 || fees.withdraw.1 != want.withdraw.1 {
        return Err("denominator differs");
    }
    if fees.trade.0 < want.trade.0 || fees.owner.0 < want.owner.0 || fees.withdraw.0 < want.withdraw.0 {
        return Err("numerator below the required one");
    }
    if fees.host != want.host {
        return Err("host fee differs");
    }
    Ok(())
}
fn nudge(r: &mut Rng, f: &mut Fees) {
    let x = match r.below(4) {
        0 => &mut f.trade,
        1 => &mut f.owner,
        2 => &mut f.withdraw,
        _ => &mut f.host,
    };
    match r.below(8) {
        0 => x.0 = x.0.saturating_sub(1),
        1 => x.0 = x.0.saturating_add(1),
        2 => x.1 = x.1.saturating_add(1),
        3 => x.1 = x.1.saturating_sub(1),
        4 => x.0 = 0,
        5 => x.0 = r.range(0, x.1.saturating_sub(1)),
        6 => {
            // the same fraction in other terms
            x.0 = x.0.saturating_mul(2);
            x.1 = x.1.saturating_mul(2);
        }
        _ => *x = *r.pick(&[(0, 0), (0, 1), (1, 2), (1, 1)]),
    }
}

fn hand(r: &mut Rng, w: &mut World, acct: &Pubkey, k: Pubkey) {
    let close = r.chance(1, 2);
    w.edit_tok(acct, |t| {
        if close {
            t.close_authority = COption::Some(k);
        } else {
            t.delegate = COption::Some(k);
            t.delegated_amount = u64::MAX;
        }
    });
}
fn c23(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let want = match r.below(4) {
        0 => distinct_fees(r),
        1 => Fees { trade: (0, 10000), owner: (5, 10000), withdraw: (0, 0), host: (20, 100) },
        _ => Fees::random(r),
    };
    let mut fees = want;
    for _ in 0..r.below(3) {
        nudge(r, &mut fees);
    }
    if r.chance(1, 3) {
        // raise the minimum fees, which is allowed
        for x in [&mut fees.trade, &mut fees.owner, &mut fees.withdraw] {
            if x.1 > x.0 && x.1 - x.0 > 1 {
                x.0 = r.range(x.0, x.1 - 1);
            }
        }
    }
    if r.chance(1, 30) {
        fees = Fees::random(r);
    }
    let curve = some_curve(r, false);
    let (a, b) = start_balances(r, &curve);
    let mut w = World::new();
    let (p, dest) = w.prepare_pool_any(r, curve, fees, a, b);
    w.adorn(r, &p, &dest);
    let all = [CurveType::ConstantProduct, CurveType::ConstantPrice, CurveType::Stable, CurveType::Offset, CurveType::LinearPrice];
    let mut types: Vec<CurveType> = all.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    match r.below(12) {
        0 => types.clear(),
        1 | 2 => types = vec![type_of(&curve)],
        3 => types = all.to_vec(),
        4 => types.retain(|x| *x != type_of(&curve)),
        _ => {
            if r.chance(1, 2) {
                types.push(type_of(&curve))
            }
        }
    }
    if types.is_empty() {
        o.n("no curve type allowed");
    }
    let owner = match r.below(10) {
        0 => w.key(r).to_string(),
        1 => p.fee_acct.to_string(),
        2 => String::new(),
        3 => "SwaPpA9LAaLfeLi3a68M4DjnLqgtticKg6CnyNwgAC8".into(),
        4 => {
            let mut s = p.fee_owner.to_string();
            s.pop();
            s
        }
        _ => p.fee_owner.to_string(),
    };
    if owner != p.fee_owner.to_string() || r.chance(1, 4) {
        // somebody else with a hand on the fee account: the configured owner, or not
        if let Ok(k) = owner.parse::<Pubkey>() {
            let k = if r.chance(1, 4) { w.key(r) } else { k };
            hand(r, &mut w, &p.fee_acct, k);
            o.n("another hand on the fee account");
        }
    }
    let ix = init_ix_any(&p, dest);
    let ordinary = conditions(&w.l, &ix, &curve, &fees, false);
    let rule = constrained(&fees, &want, &types, &curve, &p.fee_owner, &owner);
    if fees.trade.0 > want.trade.0 || fees.owner.0 > want.owner.0 || fees.withdraw.0 > want.withdraw.0 {
        o.n("numerator above the required one");
    }
    let lf = want.lib();
    let c = lib_curve(&curve);
    let f = fees.lib();
    let cons = Some(SwapConstraints { owner_key: &owner, valid_curve_types: &types, fees: &lf });
    let rec = w.l.exec_with(&ix, |id, accts, _| Processor::process_initialize(id, f, c, accts, &cons));
    let ctx = || format!("{:?} fees {:?} against {:?} of {:?}", curve, fees, want, types);
    not_crash(&rec, "C23", ctx)?;
    o.eval(true, &[curve.type_byte() as u64, types.len() as u64, fees.trade.0, fees.owner.1, fees.withdraw.0, fees.host.0, want.host.1, want.trade.0, owner.len() as u64]);
    match (rule, ordinary) {
        (Ok(()), Ok(())) => {
            o.n("created under constraints");
            check!(rec.outcome.ok(), "C23-refused", "a pool meeting every constraint is refused ({:?}): {}", rec.outcome, ctx());
            created_right(&rec, &ix, &p, &dest, "C23")?;
        }
        (Ok(()), Err(e)) => {
            check!(!rec.outcome.ok(), "C23-unsound", "a pool was created although its {} is not sound: {}", e, ctx());
        }
        (Err(e), _) => {
            o.n(e);
            o.n("refused by constraints");
            check!(!rec.outcome.ok(), format!("C23-{}", e.replace(' ', "-")), "created although: {}: {}", e, ctx());
        }
    }
    // the two rule functions agree with the whole
    let cons = cons.unwrap();
    let vf = guarded(|| cons.validate_fees(&fees.lib()).is_ok());
    let vc = guarded(|| cons.validate_curve(&lib_curve(&curve)).is_ok());
    let fee_rule = constrained(&fees, &want, &all, &curve, &p.fee_owner, &p.fee_owner.to_string()).is_ok();
    check!(vf == Ok(fee_rule), "C23-validate-fees", "validate_fees says {:?}: {}", vf, ctx());
    check!(vc == Ok(types.contains(&type_of(&curve))), "C23-validate-curve", "validate_curve says {:?}: {}", vc, ctx());
    o.sample(|| format!("{}: {:?}", ctx(), rec.outcome));
    let _ = AccountState::Initialized;
    Ok(())
}

fn c23p(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let cons = match token_bonding_curve::constraints::SWAP_CONSTRAINTS {
        Some(c) => c,
        None => return viol("C23-production", "the production build configures no constraints"),
    };
    // (the key build.sh builds with)
    let key = "HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN";
    check!(cons.owner_key == key, "C23-production-owner", "the production build is constrained to owner {} instead of {}", cons.owner_key, key);
    let want = Fees { trade: (0, 10000), owner: (5, 10000), withdraw: (0, 0), host: (20, 100) };
    let types = [CurveType::ConstantPrice, CurveType::ConstantProduct];
    let mut fees = want;
    for _ in 0..r.below(3) {
        nudge(r, &mut fees);
    }
    if r.chance(1, 3) {
        for x in [&mut fees.trade, &mut fees.owner] {
            if x.1 > x.0 && x.1 - x.0 > 1 {
                x.0 = r.range(x.0, x.1 - 1);
            }
        }
    }
    let curve = if r.chance(1, 5) { crate::lin::params(r).curve() } else { Curve::Price(pools::price(r)) };
    if curve.is_linear() {
        fees = Fees::linear();
    }
    let (a, b) = start_balances(r, &curve);
    let mut w = World::new();
    let (mut p, dest) = w.prepare_pool_any(r, curve, fees, a, b);
    w.adorn(r, &p, &dest);
    let owner: Pubkey = key.parse().map_err(|_| Violation { sig: "C23-production-owner".into(), msg: "owner key does not parse".into() })?;
    if r.chance(4, 5) {
        w.edit_tok(&p.fee_acct, |t| t.owner = owner);
        p.fee_owner = owner;
    }
    if r.chance(1, 2) {
        hand(r, &mut w, &p.fee_acct, owner);
    }
    let ix = init_ix_any(&p, dest);
    let ordinary = conditions(&w.l, &ix, &curve, &fees, true);
    let rule = constrained(&fees, &want, &types, &curve, &p.fee_owner, key);
    let rec = create(&mut w.l, &ix, &p, true, None);
    let ctx = || format!("production: {:?} fees {:?} owner {}", curve, fees, p.fee_owner);
    not_crash(&rec, "C23", ctx)?;
    o.eval(true, &[curve.type_byte() as u64, fees.trade.0, fees.owner.0, fees.owner.1, fees.host.0, a, b]);
    if rule.is_ok() && ordinary.is_ok() {
        check!(rec.outcome.ok(), "C23-production-refused", "refused ({:?}): {}", rec.outcome, ctx());
        created_right(&rec, &ix, &p, &dest, "C23")?;
        o.n("created");
    } else {
        check!(!rec.outcome.ok(), "C23-production-created", "created although {:?} {:?}: {}", rule, ordinary, ctx());
        o.n("refused");
        if curve.is_linear() {
            o.n("linear refused");
        }
    }
    o.sample(|| format!("{}: {:?}", ctx(), rec.outcome));
    Ok(())
}
