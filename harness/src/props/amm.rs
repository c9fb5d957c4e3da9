//! C13-C20: the fee-taking curves, driven through whole instructions.
use crate::big::*;
use crate::pools::*;
use crate::report::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;
use crate::check;

const ASSUME: &[&str] = &[
    "accounts are driven through the program's entry point (or its public Processor for the host fee account) on an in-process ledger with the real token program code; native build of the same sources",
    "constant product, stable and offset pools are put into the ledger as state bytes, since no instruction creates them",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", rule: "a swap instruction executed on a constant-price pool (accepted or refused) and compared with the exact rule; distinct (price, fees, balances, amount, direction)", quick: 300_000, thorough: 9_000_000, need: &["accepted", "refused for zero output", "refused for the vault", "refused for the user's balance", "refused for the minimum", "remainder left with the trader", "A to B", "B to A"], assumptions: ASSUME, case: c13 },
        Prop { id: "C14", rule: "an accepted swap on a fee-taking curve whose fee, minted pool tokens and host share were compared with the exact amounts; distinct (curve, fees, balances, supply, amount, host)", quick: 160_000, thorough: 5_000_000, need: &["owner fee minted", "host share paid", "no host given", "fee of at least one enforced", "host minimum of one", "constant_price", "constant_product", "stable", "offset", "linear"], assumptions: ASSUME, case: c14 },
        Prop { id: "C15", rule: "an accepted withdrawal whose fee and burn were compared with the configured fraction; distinct (fees, amounts, kind, source)", quick: 240_000, thorough: 5_000_000, need: &["two-sided", "single-sided", "from the fee account", "fee of at least one enforced", "two-sided fee moved", "single-sided fee moved"], assumptions: ASSUME, case: c15 },
        Prop { id: "C16", rule: "an accepted instruction in a random history after which the value per remaining pool token was compared exactly with the one before; distinct (curve, state, operation, amount)", quick: 120_000, thorough: 2_000_000, need: &["constant_price", "constant_product", "stable", "offset", "swaps", "two-sided deposits", "two-sided withdrawals", "single-sided deposits", "single-sided withdrawals", "long histories", "loops of deposit and withdrawal"], assumptions: ASSUME, case: c16 },
        Prop { id: "C17", rule: "a two-sided deposit or withdrawal executed and compared with the exact share; distinct (curve, state, pool tokens)", quick: 260_000, thorough: 8_000_000, need: &["deposits accepted", "withdrawals accepted", "deposits refused for a zero side", "withdrawals refused for a zero side", "withdrawals skipping an empty side", "offset deposits refused", "offset withdrawals", "first deposit into a pool without pool tokens", "capped by the vault"], assumptions: ASSUME, case: c17 },
        Prop { id: "C18", rule: "a single-sided operation executed and compared with the exact formula; distinct (curve, state, fees, amount, side)", quick: 160_000, thorough: 5_000_000, need: &["price deposits", "price withdrawals", "product deposits", "product withdrawals", "stable deposits", "stable withdrawals", "refused for zero pool tokens"], assumptions: ASSUME, case: c18 },
        Prop { id: "C19", rule: "a swap executed on a constant-product or offset pool and compared with the exact product rule; distinct (balances, offset, fees, amount, direction)", quick: 300_000, thorough: 9_000_000, need: &["accepted", "refused", "excess input left with the trader", "offset output beyond the vault refused", "64-bit extremes"], assumptions: ASSUME, case: c19 },
        Prop { id: "C20", rule: "an accepted swap on a stable pool compared with the exact solution of the invariant; distinct (amplification, balances, amount, direction)", quick: 90_000, thorough: 1_800_000, need: &["accepted", "symmetric pairs", "invariant compared"], assumptions: ASSUME, case: c20 },
    ]
}

fn key(p: &Pool, st: &St, x: u64, k: u64) -> [u64; 12] {
    let (t, v) = match p.curve {
        Curve::Cp => (0, 0),
        Curve::Price(v) => (1, v),
        Curve::Stable(v) => (2, v),
        Curve::Offset(v) => (3, v),
        Curve::Linear { sn, .. } => (4, sn),
    };
    let f = p.fees;
    [t, v, st.a, st.b, st.s, x, k, f.trade.0 ^ f.trade.1.rotate_left(7), f.owner.0 ^ f.owner.1.rotate_left(7), f.withdraw.0, f.withdraw.1, f.host.0 ^ f.host.1.rotate_left(9)]
}

/// sizes of a trade: around everything that matters
fn trade_size(r: &mut Rng, pit: &Pit, a_in: bool) -> u64 {
    let st = pit.st();
    let (x, y) = if a_in { (st.a, st.b) } else { (st.b, st.a) };
    let have = amt(&pit.w.l, &pit.user_tok(a_in));
    let v = match r.below(10) {
        0 => r.amount(),
        1 => r.near(x),
        2 => r.near(y),
        3 => r.near(have),
        4 => r.range(0, 100),
        5 => match pit.p.curve {
            // the input that just empties the other vault
            Curve::Price(p) => r.near(if a_in { (st.b as u128 * p as u128).min(u64::MAX as u128) as u64 } else { st.a / p }),
            _ => r.near(x),
        },
        6 => match pit.p.curve {
            Curve::Price(p) => r.near(p),
            _ => r.near(x / 1000),
        },
        7 => r.range(0, x),
        _ => r.log64(bits(x.max(1)) + 1),
    };
    if r.chance(1, 12) {
        return v;
    }
    v.min(have)
}
fn bits(x: u64) -> u32 {
    64 - x.leading_zeros()
}

fn not_crash(rec: &Record, what: &str, pit: &Pit) -> R {
    match &rec.outcome {
        Outcome::Panic(m) => viol(format!("{}-abort", what), format!("{} panicked: {} on {}", what, m, pit.desc())),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ C13
fn c13(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let c = Curve::Price(price(r));
    let p = if let Curve::Price(p) = c { p } else { 0 };
    let fees = if r.chance(1, 3) { Fees::default() } else { Fees::random(r) };
    let (a, b) = balances(r, &c);
    let s = supply(r, a, b);
    let base = Pit::forge(r, c, fees, a, b, s).cast(r);
    for _ in 0..4 {
        let mut pit = base.clone();
        let a_in = r.chance(1, 2);
        let x = trade_size(r, &pit, a_in);
        let st = pit.st();
        let (tf, of, net) = match split(x, &fees) {
            Some(v) => v,
            None => (0, 0, u128::MAX),
        };
        let impossible = net == u128::MAX;
        let rule = if impossible { None } else { exact_swap(&c, a_in, net, &st).unwrap() };
        let min = match (r.below(4), rule) {
            (0, Some((_, out))) => out.min(u64::MAX as u128) as u64,
            (1, Some((_, out))) => (out + 1).min(u64::MAX as u128) as u64,
            (2, _) => r.amount(),
            _ => 0,
        };
        let (src, dst) = (pit.user_tok(a_in), pit.user_tok(!a_in));
        let have = amt(&pit.w.l, &src) as u128;
        let dst0 = amt(&pit.w.l, &dst) as u128;
        let vin = if a_in { st.a } else { st.b } as u128;
        let vout = if a_in { st.b } else { st.a } as u128;
        let rec = pit.swap(a_in, x, min);
        not_crash(&rec, "C13-swap", &base)?;
        o.n(if a_in { "A to B" } else { "B to A" });
        o.eval(true, &key(&base.p, &st, x, (a_in as u64) ^ min.rotate_left(1)));
        let ctx = || format!("{} swap {} of {} min {}", base.desc(), if a_in { "A for B" } else { "B for A" }, x, min);
        // would it be executable?
        let mut want = None;
        match rule {
            None => o.n("refused for zero output"),
            Some((tn, out)) => {
                let taken = tn + tf + of;
                let minted = {
                    let v1 = {
                        let (na, nb) = if a_in { (vin + taken, vout.saturating_sub(out)) } else { (vout.saturating_sub(out), vin + taken) };
                        w(na) + w(nb) * w(p as u128)
                    };
                    let val = w(of) * w(if a_in { 1 } else { p as u128 });
                    if of == 0 || v1.is_zero() {
                        U1024::zero()
                    } else {
                        w(st.s as u128) * val / v1
                    }
                };
                if out < min as u128 {
                    o.n("refused for the minimum")
                } else if out > vout {
                    o.n("refused for the vault")
                } else if taken > have {
                    o.n("refused for the user's balance")
                } else if vin + taken > u64::MAX as u128 || dst0 + out > u64::MAX as u128 || w(st.s as u128) + minted > w(u64::MAX as u128) {
                    o.n("refused for 64-bit overflow")
                } else {
                    want = Some((taken, out));
                }
            }
        }
        match want {
            Some((taken, out)) => {
                o.n("accepted");
                check!(rec.outcome.ok(), "C13-refused", "{}: refused ({:?}) although it takes {} and delivers {}", ctx(), rec.outcome, taken, out);
                let got = delta(&rec, &dst);
                let paid = -delta(&rec, &src);
                check!(got == out as i128, "C13-output", "{}: delivered {} instead of {}", ctx(), got, out);
                check!(paid == taken as i128, "C13-input", "{}: took {} instead of {}", ctx(), paid, taken);
                check!(delta(&rec, &base.p.vault(a_in)) == paid && delta(&rec, &base.p.vault(!a_in)) == -got, "C13-vaults", "{}: vault changes {} / {}", ctx(), delta(&rec, &base.p.vault(a_in)), delta(&rec, &base.p.vault(!a_in)));
                if taken < x as u128 {
                    o.n("remainder left with the trader");
                }
                o.sample(|| format!("{} -> took {} gave {}", ctx(), paid, got));
            }
            None => {
                check!(!rec.outcome.ok(), "C13-accepted", "{}: accepted (gave {}, took {}) although {:?} under net {}", ctx(), delta(&rec, &dst), -delta(&rec, &src), rule, net);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
fn c14(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(9);
    let mut base = if which == 8 {
        let lin = crate::lin::params(r);
        let b = r.logpos(40);
        let mut w = World::new();
        let (i, rest) = w.forge_pool(r, lin.curve(), Fees::linear(), r.clone().log64(40), b, INITIAL_SUPPLY, None);
        let p = w.pools[i].clone();
        Pit::around(r, w, p, rest, INITIAL_SUPPLY).cast(r)
    } else {
        Pit::random(r, which % 4)
    };
    if base.p.curve.is_linear() {
        let mut pit = base.clone();
        let a_in = r.chance(1, 2);
        let x = r.log64(45);
        let rec = if r.chance(1, 2) { pit.swap(a_in, x, 0) } else { pit.swap_hosted(a_in, x, 0) };
        if rec.outcome.ok() {
            o.n("linear");
            o.eval(true, &key(&base.p, &base.st(), x, 0));
            check!(supply_delta(&rec, &base.p.pool_mint) == 0 && delta(&rec, &base.host) == 0 && delta(&rec, &base.p.fee_acct) == 0, "C14-linear-minted", "linear swap minted pool tokens");
        }
        return Ok(());
    }
    if r.chance(1, 24) {
        // everybody has left; what rounding or donations left behind can still be traded
        for k in [base.up, base.rest, base.p.fee_acct, base.host] {
            base.w.set_amount(&k, 0);
        }
        let mint = base.p.pool_mint;
        base.w.edit_mint(&mint, |m| m.supply = 0);
        o.n("pools without pool tokens");
    }
    // several swaps in a row
    for _ in 0..4 {
        let a_in = r.chance(1, 2);
        let x = trade_size(r, &base, a_in);
        let st = base.st();
        let pool = base.p.clone();
        let f = pool.fees;
        let hosted = r.chance(1, 2);
        // the fee account given as the host keeps everything
        let to_itself = hosted && r.chance(1, 16);
        let host = base.host;
        if to_itself {
            base.host = pool.fee_acct;
        }
        let who = if hosted && !to_itself && r.chance(1, 16) { base.up } else { host };
        if !to_itself {
            base.host = who;
        }
        let before = base.desc();
        let rec = if hosted { base.swap_hosted(a_in, x, 0) } else { base.swap(a_in, x, 0) };
        base.host = host;
        not_crash(&rec, "C14-swap", &base)?;
        if !rec.outcome.ok() {
            o.n("refused");
            continue;
        }
        let ctx = || format!("{} swap {} of {}{}", before, if a_in { "A for B" } else { "B for A" }, x, if hosted { " with host" } else { "" });
        let (tf, of, net) = match split(x, &f) {
            Some(v) => v,
            None => return viol("C14-fee-overdrawn", format!("{}: accepted although the fees exceed the input", ctx())),
        };
        o.n(pool.curve.kind());
        o.eval(true, &key(&pool, &st, x, a_in as u64 + 2 * hosted as u64));
        if (tf == 1 && (x as u128 * f.trade.0 as u128) < f.trade.1 as u128) || (of == 1 && (x as u128 * f.owner.0 as u128) < f.owner.1 as u128) {
            o.n("fee of at least one enforced");
        }
        let paid = -delta(&rec, &base.user_tok(a_in));
        let got = delta(&rec, &base.user_tok(!a_in));
        match exact_swap(&pool.curve, a_in, net, &st) {
            Ok(Some((tn, out))) => {
                check!(got == out as i128, "C14-fee-size", "{}: delivered {} where fees {}+{} leave {} -> {}", ctx(), got, tf, of, net, out);
                check!(paid == (tn + tf + of) as i128, "C14-fee-size", "{}: took {} instead of {} + fees {}+{}", ctx(), paid, tn, tf, of);
            }
            Ok(None) => return viol("C14-fee-size", format!("{}: traded ({} for {}) although nothing is left after fees {}+{}", ctx(), paid, got, tf, of)),
            Err(()) => {
                check!(paid == x as i128, "C14-fee-size", "{}: took {} of {}", ctx(), paid, x);
            }
        }
        check!(delta(&rec, &pool.vault(a_in)) == paid, "C14-fee-left-vault", "{}: user paid {} but the vault received {}", ctx(), paid, delta(&rec, &pool.vault(a_in)));
        check!(delta(&rec, &pool.vault(!a_in)) == -got, "C14-output-fee", "{}: vault paid {} but the user received {}", ctx(), -delta(&rec, &pool.vault(!a_in)), got);
        // pool tokens
        let minted = supply_delta(&rec, &pool.pool_mint);
        let to_fee = delta(&rec, &pool.fee_acct);
        let to_host = if to_itself { 0 } else { delta(&rec, &who) };
        check!(minted >= 0 && minted == to_fee + to_host, "C14-mint-split", "{}: {} pool tokens minted, fee account {} host {}", ctx(), minted, to_fee, to_host);
        let minted = minted as u128;
        if of == 0 {
            check!(minted == 0, "C14-minted-without-fee", "{}: {} pool tokens minted without an owner fee", ctx(), minted);
        } else {
            // worth of the minted tokens in the balances after the trade
            let st1 = base.st();
            let s = st.s;
            let one = U1024::one() << 64usize;
            let slack = ((w(s as u128) << 64usize) / w(EPS as u128)) + U1024::from(4u64);
            let m = w(minted) << 64usize;
            let (lo, hi) = match pool.curve {
                Curve::Price(p) => {
                    let v1 = w(st1.a as u128) + w(st1.b as u128) * w(p as u128);
                    let val = w(of) * w(if a_in { 1 } else { p as u128 });
                    let e = (w(s as u128) * val << 64usize) / v1;
                    (sat_sub(e, one), e)
                }
                Curve::Cp | Curve::Offset(_) => {
                    let off = if let Curve::Offset(q) = pool.curve { q as u128 } else { 0 };
                    let v = if a_in { st1.a as u128 } else { st1.b as u128 + off };
                    let e = cp_burn(s, v, of);
                    let slack = slack + root_slack(s, v, w(v - of));
                    (sat_sub(e, one + slack), e + slack)
                }
                Curve::Stable(amp) => {
                    let (na, nb) = if a_in { (st1.a - of as u64, st1.b) } else { (st1.a, st1.b - of as u64) };
                    let (e1, e0) = match (d_err(amp, st1.a, st1.b), d_err(amp, na, nb)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => {
                            o.n("stable too imbalanced for the exact comparison");
                            continue;
                        }
                    };
                    let d1 = stable_d_of(amp, st1.a, st1.b);
                    let d0 = stable_d_of(amp, na, nb);
                    // the solver works with whole units of D
                    let (e, tot) = (e0 + e1, e1);
                    let diff = sat_sub(d1, d0);
                    if d1 <= tot * w(2) {
                        continue;
                    }
                    (sat_sub((w(s as u128) * sat_sub(diff, e) << 64usize) / (d1 + tot), one + slack), (w(s as u128) * (diff + e) << 64usize) / (d1 - tot) + slack)
                }
                _ => unreachable!(),
            };
            check!(m <= hi, "C14-overminted", "{}: owner fee {} minted {} pool tokens, worth more than the fee (at most {:.6})", ctx(), of, minted, f_(hi));
            check!(m + U1024::one() > lo, "C14-underminted", "{}: owner fee {} minted only {} pool tokens (at least {:.6} due)", ctx(), of, minted, f_(lo));
            if minted > 0 {
                o.n("owner fee minted");
                let share = if hosted && !to_itself { fee(minted, f.host) } else { 0 };
                check!(to_host as u128 == share, "C14-host-share", "{}: of {} pool tokens the host received {} instead of {}", ctx(), minted, to_host, share);
                if hosted && share > 0 {
                    o.n("host share paid");
                    if minted * (f.host.0 as u128) < f.host.1 as u128 {
                        o.n("host minimum of one");
                    }
                }
                if !hosted {
                    o.n("no host given");
                }
            }
            o.sample(|| format!("{} -> owner fee {} minted {} (host {})", ctx(), of, minted, to_host));
        }
    }
    Ok(())
}
fn f_(x: U1024) -> f64 {
    f(x) / 2f64.powi(64)
}

// ------------------------------------------------------------------ C15
fn pool_token_amount(r: &mut Rng, pit: &Pit, from_fee: bool) -> u64 {
    let st = pit.st();
    let have = amt(&pit.w.l, &if from_fee { pit.p.fee_acct } else { pit.up });
    match r.below(8) {
        0 => r.amount(),
        1 => r.range(0, 100).min(have),
        2 => have,
        3 => r.near(st.s),
        4 => r.near(have),
        5 => r.log64(bits(have.max(1))).min(have),
        _ => r.range(0, have),
    }
}
fn c15(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(4);
    let mut pit = Pit::random(r, which);
    for _ in 0..4 {
        let from_fee = r.chance(1, 3);
        let src = if from_fee { pit.p.fee_acct } else { pit.up };
        let st = pit.st();
        let before = pit.desc();
        let f = pit.p.fees;
        if r.chance(1, 2) {
            let m = pool_token_amount(r, &pit, from_fee);
            let rec = pit.withdraw_all(m, 0, 0, from_fee);
            not_crash(&rec, "C15-withdraw", &pit)?;
            if !rec.outcome.ok() {
                o.n("two-sided refused");
                continue;
            }
            o.n("two-sided");
            o.eval(m > 0, &key(&pit.p, &st, m, from_fee as u64));
            let due = if from_fee { 0 } else { fee(m as u128, f.withdraw) };
            let burned = -supply_delta(&rec, &pit.p.pool_mint);
            let left = -delta(&rec, &src);
            let feein = delta(&rec, &pit.p.fee_acct);
            check!(burned == m as i128 - due as i128, "C15-burn", "{}: withdrawing {} (fee account: {}) burned {} instead of {} - {}", before, m, from_fee, burned, m, due);
            if from_fee {
                o.n("from the fee account");
                check!(left == m as i128, "C15-source", "{}: withdrawing {} from the fee account took {}", before, m, left);
            } else {
                check!(feein == due as i128, "C15-fee", "{}: withdrawing {} moved {} to the fee account instead of {}", before, m, feein, due);
                check!(left == m as i128, "C15-source", "{}: withdrawing {} took {} pool tokens", before, m, left);
                if due > 0 {
                    o.n("two-sided fee moved");
                    if due == 1 && (m as u128 * f.withdraw.0 as u128) < f.withdraw.1 as u128 {
                        o.n("fee of at least one enforced");
                    }
                }
            }
        } else {
            let a_out = r.chance(1, 2);
            let v = if a_out { st.a } else { st.b };
            let x = match r.below(4) {
                0 => r.range(0, 50),
                1 => r.near(v),
                2 => r.log64(bits(v.max(1))),
                _ => r.range(0, v),
            };
            let rec = pit.withdraw_single(a_out, x, u64::MAX, from_fee);
            not_crash(&rec, "C15-withdraw-single", &pit)?;
            if !rec.outcome.ok() {
                o.n("single-sided refused");
                continue;
            }
            o.n("single-sided");
            let burned = -supply_delta(&rec, &pit.p.pool_mint);
            let left = -delta(&rec, &src);
            let feein = delta(&rec, &pit.p.fee_acct);
            o.eval(burned > 0, &key(&pit.p, &st, x, 2 + from_fee as u64 + 4 * a_out as u64));
            check!(burned > 0, "C15-single-burn", "{}: single withdrawal of {} burned {}", before, x, burned);
            let due = if from_fee { 0 } else { fee(burned as u128, f.withdraw) };
            if from_fee {
                o.n("from the fee account");
                check!(left == burned, "C15-single-source", "{}: single withdrawal of {} from the fee account took {} and burned {}", before, x, left, burned);
            } else {
                check!(feein == due as i128, "C15-single-fee", "{}: single withdrawal of {} burning {} moved {} to the fee account instead of {}", before, x, burned, feein, due);
                check!(left == burned + due as i128, "C15-single-source", "{}: single withdrawal of {} took {} instead of {} + {}", before, x, left, burned, due);
                if due > 0 {
                    o.n("single-sided fee moved");
                }
            }
            o.sample(|| format!("{}: single withdrawal {} burned {} fee {}", before, x, burned, due));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16
/// exact comparison: value per pool token after >= before (within the stated tolerance)
/// `swap`: side paid in; `root`: rest and volume of the square root that was taken
fn value_kept(c: &Curve, s0: &St, s1: &St, swap: Option<bool>, root: Option<(u128, u128)>) -> bool {
    if s0.s == 0 || s1.s == 0 {
        return true;
    }
    let tol = |x: U1024, parts: u64| x - x / w((EPS / parts) as u128);
    match *c {
        Curve::Price(p) => {
            let v = |s: &St| w(s.a as u128) + w(s.b as u128) * w(p as u128);
            // one unit of the pool's total value, in the worth of all pool tokens
            v(s1) * w(s0.s as u128) + w(s1.s as u128) >= v(s0) * w(s1.s as u128)
        }
        Curve::Cp | Curve::Offset(_) => {
            let off = if let Curve::Offset(o) = *c { o as u128 } else { 0 };
            let v = |s: &St| w(s.a as u128) * w(s.b as u128 + off);
            let q = |s: &St| w(s.s as u128) * w(s.s as u128);
            // squared values: twice the relative tolerance, and absolute slack of the precision of the larger supply
            v(s1) * q(s0) >= tol(v(s0) * q(s1), 4) || {
                let m = s0.s.max(s1.s);
                // the square root of a tiny rest magnifies the last of its twelve decimals
                let extra = root.map(|(rest, vol)| root_slack(m, vol, w(rest))).unwrap_or(U1024::zero());
                let loss = (w(m as u128) << 64usize) / w(EPS as u128) + extra * w(2);
                let small = sat_sub(w(s1.s as u128) << 64usize, loss);
                (v(s1) * q(s0)) << 128usize >= v(s0) * small * small
            }
        }
        Curve::Stable(amp) => {
            // both balances per pool token at least as high
            if s1.a as u128 * s0.s as u128 >= s0.a as u128 * s1.s as u128 && s1.b as u128 * s0.s as u128 >= s0.b as u128 * s1.s as u128 {
                return true;
            }
            let (e0, e1) = match (d_err(amp, s0.a, s0.b), d_err(amp, s1.a, s1.b)) {
                (Some(x), Some(y)) => (x, y),
                _ => return true,
            };
            let d0 = stable_d_of(amp, s0.a, s0.b);
            // a trade rounds its output by up to two smallest units of the paid-out balance
            let (a1, b1) = match swap {
                Some(true) => (s1.a, s1.b.saturating_add(2)),
                Some(false) => (s1.a.saturating_add(2), s1.b),
                None => (s1.a, s1.b),
            };
            let d1 = stable_d_of(amp, a1, b1);
            // the solver's D is whole: its error at either end
            let slack = e0 + e1;
            (d1 + slack) * w(s0.s as u128) + slack * w(s1.s as u128) >= tol(d0 * w(s1.s as u128), 2)
        }
        _ => true,
    }
}

/// (rest, volume) of the square root behind a single-sided withdrawal
fn single_root(c: &Curve, st: &St, a: bool, x: u64, f: &Fees) -> Option<(u128, u128)> {
    let off = if let Curve::Offset(q) = *c { q as u128 } else { 0 };
    let vol = if a { st.a as u128 } else { st.b as u128 + off };
    let h = (x as u128 + 1) / 2;
    let y = w(x as u128 - h) + gross(h, f.trade);
    if vol == 0 {
        return None;
    }
    Some((sat_sub(w(vol), y).low_u128(), vol))
}

fn c16(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(4);
    let c = curve(r, which);
    let fees = match r.below(4) {
        0 => Fees::random(r),
        1 => Fees::default(),
        _ => Fees::small(r),
    };
    let (a, b) = if which == 2 {
        // balanced enough for the solver
        let a = r.logpos(50);
        let k = r.below(8);
        (a, match k {
            0 => a,
            _ => r.near(a).max(1),
        })
    } else {
        balances(r, &c)
    };
    let s = supply(r, a, b);
    let mut pit = Pit::forge(r, c, fees, a, b, s).cast(r);
    o.n(c.kind());
    let steps = if r.chance(1, 4) { 24 } else { 6 };
    if steps == 24 {
        o.n("long histories");
    }
    let first = pit.st();
    let mut hist: Vec<String> = vec![];
    // directed loop: enter one way, leave the other, all within one user
    if r.chance(1, 5) {
        o.n("loops of deposit and withdrawal");
        let st = pit.st();
        let before = pit.desc();
        let ua0 = amt(&pit.w.l, &pit.ua) as i128;
        let ub0 = amt(&pit.w.l, &pit.ub) as i128;
        let up0 = amt(&pit.w.l, &pit.up);
        let a_side = r.chance(1, 2);
        let two = r.chance(1, 2);
        let rec = if two {
            let m = r.range(0, st.s.saturating_mul(2));
            pit.deposit_all(m, u64::MAX, u64::MAX)
        } else {
            let x = r.near(if a_side { st.a } else { st.b });
            pit.deposit_single(a_side, x, 0)
        };
        if rec.outcome.ok() {
            let mid = pit.st();
            check!(value_kept(&c, &st, &mid, None, None), "C16-deposit-leak", "{}: deposit leaves {:?}", before, mid);
            let got = amt(&pit.w.l, &pit.up) - up0;
            let side = r.chance(1, 2);
            // leave with as much as those pool tokens allow
            let v = if side { mid.a } else { mid.b };
            let (mut lo, mut hi) = (0u64, v);
            for _ in 0..64 {
                if lo >= hi {
                    break;
                }
                let x = lo + (hi - lo) / 2 + (hi - lo) % 2;
                let mut t = pit.clone();
                if t.withdraw_single(side, x, got, false).outcome.ok() {
                    lo = x;
                } else {
                    hi = x - 1;
                }
            }
            if lo > 0 {
                let rec = pit.withdraw_single(side, lo, got, false);
                if rec.outcome.ok() {
                    let end = pit.st();
                    o.eval(true, &key(&pit.p, &st, lo, 77));
                    check!(value_kept(&c, &mid, &end, None, single_root(&c, &mid, side, lo, &fees)), "C16-withdraw-leak", "{}: single withdrawal of {} {} from {:?} leaves {:?}", before, lo, if side { "A" } else { "B" }, mid, end);
                    if let Curve::Price(p) = c {
                        // the user's own gain, in units of token A
                        let g = (amt(&pit.w.l, &pit.ua) as i128 - ua0) + (amt(&pit.w.l, &pit.ub) as i128 - ub0) * p as i128;
                        if end.s >= first.s {
                            check!(g <= 2 + (end.s as i128 / st.s.max(1) as i128), "C16-loop-profit", "{}: depositing and withdrawing gained {} of token A value", before, g);
                        }
                    }
                }
            }
        }
    }
    for _ in 0..steps {
        let st = pit.st();
        if st.s == 0 {
            break;
        }
        let before = pit.desc();
        let mut swap = None;
        let mut root = None;
        let (what, x, rec): (&'static str, u64, Record) = match r.below(10) {
            0..=3 => {
                let a_in = r.chance(1, 2);
                let x = trade_size(r, &pit, a_in);
                swap = Some(a_in);
                let rec = if r.chance(1, 4) { pit.swap_hosted(a_in, x, 0) } else { pit.swap(a_in, x, 0) };
                let now = pit.st();
                let vol = if a_in { now.a as u128 } else { now.b as u128 + if let Curve::Offset(q) = c { q as u128 } else { 0 } };
                root = Some((vol.saturating_sub(fee(x as u128, fees.owner)), vol));
                ("swaps", x, rec)
            }
            4 => {
                let m = match r.below(4) {
                    0 => r.amount(),
                    1 => r.range(1, 100),
                    2 => r.near(st.s),
                    _ => r.range(0, st.s),
                };
                ("two-sided deposits", m, pit.deposit_all(m, u64::MAX, u64::MAX))
            }
            5 => {
                let ff = r.chance(1, 4);
                let m = pool_token_amount(r, &pit, ff);
                ("two-sided withdrawals", m, pit.withdraw_all(m, 0, 0, ff))
            }
            6 => {
                let a_in = r.chance(1, 2);
                let x = trade_size(r, &pit, a_in);
                ("single-sided deposits", x, pit.deposit_single(a_in, x, 0))
            }
            7 | 8 => {
                let a_out = r.chance(1, 2);
                let v = if a_out { st.a } else { st.b };
                let x = match r.below(4) {
                    0 => r.near(v),
                    1 => r.range(0, 100),
                    2 => r.log64(bits(v.max(1))),
                    _ => r.range(0, v),
                };
                root = single_root(&c, &st, a_out, x, &fees);
                ("single-sided withdrawals", x, pit.withdraw_single(a_out, x, u64::MAX, r.chance(1, 4)))
            }
            _ => {
                // a donation
                let side = r.chance(1, 2);
                let k = pit.p.vault(side);
                let v = amt(&pit.w.l, &k);
                let d = r.log64(40).min(u64::MAX - v);
                pit.w.set_amount(&k, v + d);
                o.n("donations");
                continue;
            }
        };
        not_crash(&rec, "C16-op", &pit)?;
        if !rec.outcome.ok() {
            o.n("refused");
            continue;
        }
        o.n(what);
        let now = pit.st();
        hist.push(format!("{} {}", what, x));
        o.eval(now != st, &key(&pit.p, &st, x, what.len() as u64));
        check!(value_kept(&c, &st, &now, swap, root), format!("C16-{}", what.replace(' ', "-")), "{}: {} of {} lowers the value of a pool token: {:?} -> {:?}", before, what, x, st, now);
    }
    o.sample(|| format!("{:?} from {:?}: {:?}", c, first, hist));
    Ok(())
}

// ------------------------------------------------------------------ C17
fn c17(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(4);
    let c = curve(r, which);
    let fees = if r.chance(1, 2) { Fees::small(r) } else { Fees::random(r) };
    let (mut a, mut b) = balances(r, &c);
    if r.chance(1, 20) {
        if r.chance(1, 2) {
            a = 0
        } else {
            b = 0
        }
    }
    let s = if r.chance(1, 20) { 0 } else { supply(r, a, b) };
    let base = Pit::forge(r, c, fees, a, b, s).cast(r);
    for _ in 0..3 {
        let mut pit = base.clone();
        let deposit = r.chance(1, 2);
        let from_fee = !deposit && r.chance(1, 6);
        let m = if deposit {
            match r.below(6) {
                0 => r.amount(),
                1 => r.near(s),
                2 => r.range(0, 50),
                // about one unit of a token
                3 => r.near(if a.max(b) > 0 { s / a.max(b).max(1) + 1 } else { 1 }),
                _ => r.range(0, s),
            }
        } else {
            pool_token_amount(r, &pit, from_fee)
        };
        let before = pit.desc();
        let wfee = if deposit || from_fee { 0 } else { fee(m as u128, fees.withdraw) };
        let m_eff = if deposit && s == 0 { INITIAL_SUPPLY as u128 } else { m as u128 - wfee.min(m as u128) };
        let s_eff = if deposit && s == 0 { INITIAL_SUPPLY as u128 } else { s as u128 };
        // exact shares as fractions num/den
        let (na, da, nb, db) = if s_eff == 0 {
            (w(0), w(1), w(0), w(1))
        } else {
            match c {
                Curve::Price(p) => {
                    let half = (w(a as u128) + w(b as u128) * w(p as u128)) / w(2);
                    (w(m_eff) * half, w(s_eff), w(m_eff) * half, w(s_eff) * w(p as u128))
                }
                Curve::Offset(off) => (w(m_eff) * w(a as u128), w(s_eff), w(m_eff) * w(b as u128 + off as u128), w(s_eff)),
                _ => (w(m_eff) * w(a as u128), w(s_eff), w(m_eff) * w(b as u128), w(s_eff)),
            }
        };
        let (fa, fb) = (na / da, nb / db);
        let fits = match c {
            Curve::Price(_) => na.bits() <= 128,
            _ => na.bits() <= 128 && nb.bits() <= 128,
        };
        if deposit {
            let (ca, cb) = (ceil_div(na, da), ceil_div(nb, db));
            let rec = pit.deposit_all(m, u64::MAX, u64::MAX);
            not_crash(&rec, "C17-deposit", &base)?;
            o.eval(true, &key(&base.p, &base.st(), m, 1));
            if let Curve::Offset(_) = c {
                o.n("offset deposits refused");
                check!(!rec.outcome.ok(), "C17-offset-deposit", "{}: deposit of {} accepted", before, m);
                let x = r.amount();
                let side = r.chance(1, 2);
                let rec = pit.deposit_single(side, x, 0);
                not_crash(&rec, "C17-deposit-single", &base)?;
                check!(!rec.outcome.ok(), "C17-offset-deposit", "{}: single-sided deposit of {} accepted", before, x);
                continue;
            }
            let zero = fa.is_zero() || fb.is_zero();
            let (ta, tb) = (delta(&rec, &pit.p.vault_a), delta(&rec, &pit.p.vault_b));
            if rec.outcome.ok() {
                o.n("deposits accepted");
                if s == 0 {
                    o.n("first deposit into a pool without pool tokens");
                }
                check!(
                    !zero || matches!(c, Curve::Price(_)),
                    "C17-deposit-below-unit",
                    "{}: deposit for {} pool tokens worth {:.3} A and {:.3} B took {} A and {} B instead of being refused", before, m, f(na) / f(da), f(nb) / f(db), ta, tb
                );
                check!(ta > 0 && tb > 0, "C17-onesided-deposit", "{}: deposit for {} pool tokens took {} A and {} B (exact {:.3} / {:.3})", before, m, ta, tb, f(na) / f(da), f(nb) / f(db));
                let more = if let Curve::Price(_) = c { 1 } else { 0 };
                let fair = |t: i128, c: U1024| w(t as u128) >= c && w(t as u128) <= c + w(more);
                check!(fair(ta, ca) && fair(tb, cb), "C17-deposit-share", "{}: deposit for {} pool tokens took {} A and {} B instead of {} and {}", before, m, ta, tb, ca, cb);
                check!(supply_delta(&rec, &pit.p.pool_mint) == m_eff as i128 && delta(&rec, &pit.up) == m_eff as i128, "C17-deposit-mint", "{}: deposit for {} minted {} and credited {}", before, m, supply_delta(&rec, &pit.p.pool_mint), delta(&rec, &pit.up));
                o.sample(|| format!("{}: deposit {} took {} {}", before, m, ta, tb));
            } else if zero {
                o.n("deposits refused for a zero side");
            } else if fits
                && ca <= w(amt(&base.w.l, &base.ua) as u128)
                && cb <= w(amt(&base.w.l, &base.ub) as u128)
                && s as u128 + m_eff <= u64::MAX as u128
                && matches!(c, Curve::Price(_)) == matches!(c, Curve::Price(_))
            {
                return viol("C17-deposit-refused", format!("{}: proportional deposit for {} pool tokens ({} A, {} B) refused: {:?}", before, m, ca, cb, rec.outcome));
            } else {
                o.n("deposits refused for funds or 64-bit range");
            }
        } else {
            if s == 0 {
                continue;
            }
            let (pa, pb) = (fa.min(w(a as u128)), fb.min(w(b as u128)));
            let rec = pit.withdraw_all(m, 0, 0, from_fee);
            not_crash(&rec, "C17-withdraw", &base)?;
            o.eval(true, &key(&base.p, &base.st(), m, 2 + from_fee as u64));
            let (ga, gb) = (-delta(&rec, &pit.p.vault_a), -delta(&rec, &pit.p.vault_b));
            let zero = (pa.is_zero() && a > 0) || (pb.is_zero() && b > 0);
            if rec.outcome.ok() {
                o.n("withdrawals accepted");
                if let Curve::Offset(_) = c {
                    o.n("offset withdrawals");
                }
                check!(!zero, "C17-onesided-withdrawal", "{}: withdrawal of {} paid {} A and {} B", before, m, ga, gb);
                check!(w(ga as u128) == pa && w(gb as u128) == pb, "C17-withdraw-share", "{}: withdrawal of {} (fee {}) paid {} A and {} B instead of {} and {}", before, m, wfee, ga, gb, pa, pb);
                check!(delta(&rec, &pit.ua) == ga && delta(&rec, &pit.ub) == gb, "C17-withdraw-credit", "{}: vaults paid {} {} but the user got {} {}", before, ga, gb, delta(&rec, &pit.ua), delta(&rec, &pit.ub));
                if a == 0 || b == 0 {
                    o.n("withdrawals skipping an empty side");
                }
                if fa > pa || fb > pb {
                    o.n("capped by the vault");
                }
            } else if zero {
                o.n("withdrawals refused for a zero side");
            } else {
                let src = if from_fee { base.p.fee_acct } else { base.up };
                let room = w(amt(&base.w.l, &base.ua) as u128) + pa <= w(u64::MAX as u128) && w(amt(&base.w.l, &base.ub) as u128) + pb <= w(u64::MAX as u128);
                // a share beyond 64 bits (before the cap) is refused
                let fits = fits && fa.bits() <= 64 && fb.bits() <= 64;
                check!(!(fits && room && m <= amt(&base.w.l, &src)), "C17-withdraw-refused", "{}: withdrawal of {} ({} A, {} B) refused: {:?}", before, m, pa, pb, rec.outcome);
                o.n("withdrawals refused for funds or 64-bit range");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
/// smallest amount whose trading fee still leaves `post`, as the program documents it: ceil(post*d/(d-n))
fn gross(post: u128, f: (u64, u64)) -> U1024 {
    if f.0 == 0 {
        return w(post);
    }
    ceil_div(w(post) * w(f.1 as u128), w((f.1 - f.0) as u128))
}
fn c18(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(4);
    let c = curve(r, which);
    let mut fees = if r.chance(1, 2) { Fees::small(r) } else { Fees::random(r) };
    if r.chance(1, 3) {
        fees.trade = (0, 0);
    }
    let (a, b) = if which == 2 {
        let a = r.logpos(50);
        (a, r.near(a).max(1))
    } else {
        balances(r, &c)
    };
    let s = supply(r, a, b);
    let base = Pit::forge(r, c, fees, a, b, s).cast(r);
    let st = base.st();
    for _ in 0..4 {
        let mut pit = base.clone();
        let deposit = if let Curve::Offset(_) = c { false } else { r.chance(1, 2) };
        let side = r.chance(1, 2);
        let v = if side { a } else { b };
        let x = if deposit {
            trade_size(r, &pit, side)
        } else {
            match r.below(6) {
                0 => r.near(v),
                1 => r.range(0, 100),
                2 | 3 => r.log64(bits(v.max(1))),
                _ => r.range(0, v),
            }
        };
        let before = pit.desc();
        let rec = if deposit { pit.deposit_single(side, x, 0) } else { pit.withdraw_single(side, x, u64::MAX, false) };
        not_crash(&rec, "C18-op", &base)?;
        let ctx = || format!("{}: {} of {} {}", before, if deposit { "single deposit" } else { "single withdrawal" }, x, if side { "A" } else { "B" });
        let n = if deposit { supply_delta(&rec, &pit.p.pool_mint) } else { -supply_delta(&rec, &pit.p.pool_mint) };
        o.eval(rec.outcome.ok(), &key(&base.p, &st, x, deposit as u64 + 2 * side as u64));
        if rec.outcome.ok() {
            check!(n > 0, "C18-zero", "{}: {} pool tokens", ctx(), n);
            let dv = delta(&rec, &pit.p.vault(side));
            check!(dv == if deposit { x as i128 } else { -(x as i128) }, "C18-amount", "{}: vault changed by {}", ctx(), dv);
            check!(delta(&rec, &pit.p.vault(!side)) == 0, "C18-other-side", "{}: the other vault changed", ctx());
        }
        if x == 0 {
            check!(!rec.outcome.ok(), "C18-zero", "{} accepted", ctx());
            continue;
        }
        let half = (x as u128 / 2).max(1);
        let tf = fee(half, fees.trade);
        // value credited (deposit) or charged (withdrawal)
        let y: U1024 = if deposit {
            if tf > x as u128 {
                continue;
            }
            w(x as u128 - tf)
        } else {
            let h = (x as u128 + 1) / 2;
            w(x as u128 - h) + gross(h, fees.trade)
        };
        let n = w(n.max(0) as u128);
        let nn = n << 64usize;
        let one = U1024::one() << 64usize;
        match c {
            Curve::Price(p) => {
                let val = y * w(if side { 1 } else { p as u128 });
                let tot = w(a as u128) + w(b as u128) * w(p as u128);
                let num = val * w(s as u128);
                let e = num / tot;
                if rec.outcome.ok() {
                    if deposit {
                        o.n("price deposits");
                        check!(n == e, "C18-price-deposit", "{} minted {} instead of {}", ctx(), n, e);
                    } else {
                        o.n("price withdrawals");
                        let ec = ceil_div(num, tot);
                        check!(n == ec, "C18-price-withdraw", "{} burned {} instead of {}", ctx(), n, ec);
                    }
                } else if e.is_zero() {
                    o.n("refused for zero pool tokens");
                } else if deposit {
                    let ok = x <= amt(&base.w.l, &base.user_tok(side)) && w(s as u128) + e <= w(u64::MAX as u128);
                    check!(!ok, "C18-refused", "{} refused ({:?}) although it mints {}", ctx(), rec.outcome, e);
                } else {
                    let ec = ceil_div(num, tot);
                    let cost = if ec.bits() <= 64 { ec + w(fee(ec.as_u128(), fees.withdraw)) } else { ec };
                    let ok = x <= v && cost <= w(amt(&base.w.l, &base.up) as u128) && w(amt(&base.w.l, &base.user_tok(side)) as u128) + w(x as u128) <= w(u64::MAX as u128);
                    check!(!ok, "C18-refused", "{} refused ({:?}) although it costs {}", ctx(), rec.outcome, cost);
                }
            }
            Curve::Cp | Curve::Offset(_) => {
                let off = if let Curve::Offset(q) = c { q as u128 } else { 0 };
                let vol = if side { a as u128 } else { b as u128 + off };
                if !rec.outcome.ok() {
                    o.n("product refused");
                    continue;
                }
                if deposit {
                    o.n("product deposits");
                    let e = cp_mint(s, vol, y.as_u128());
                    let slack = (e + (w(s as u128) << 64usize)) / w(EPS as u128) + U1024::from(4u64);
                    check!(nn <= e + slack, "C18-product-deposit", "{} minted {} instead of {:.6}", ctx(), n, f_(e));
                    check!(nn + slack + one >= e, "C18-product-deposit-low", "{} minted only {} instead of {:.6}", ctx(), n, f_(e));
                } else {
                    o.n("product withdrawals");
                    check!(y <= w(vol), "C18-product-overdraw", "{} paid although it is worth more than the vault", ctx());
                    let e = cp_burn(s, vol, y.as_u128());
                    let slack = (w(s as u128) << 64usize) / w(EPS as u128 / 10) + U1024::from(4u64);
                    // near the whole balance the root of a tiny rest magnifies the last decimal
                    let rest = w(vol) - y;
                    let slack = slack + root_slack(s, vol, rest);
                    check!(nn + slack >= e, "C18-product-withdraw", "{} burned only {} instead of {:.6}", ctx(), n, f_(e));
                    check!(nn <= e + slack + one, "C18-product-withdraw-high", "{} burned {} instead of {:.6}", ctx(), n, f_(e));
                }
            }
            Curve::Stable(amp) => {
                if !rec.outcome.ok() {
                    o.n("stable refused");
                    continue;
                }
                let d0 = stable_d_of(amp, a, b);
                let un = U1024::one() << DK as usize;
                let yy = y.as_u128();
                let nv = if deposit { v as u128 + yy } else {
                    check!(yy <= v as u128, "C18-stable-overdraw", "{} paid although it is worth more than the vault", ctx());
                    v as u128 - yy
                };
                let (na, nb) = if side { (nv, b as u128) } else { (a as u128, nv) };
                let q = (w(na) * w(2) + U1024::one()) * (w(nb) * w(2) + U1024::one());
                if a == 0 || b == 0 || na == 0 || nb == 0 || a.max(b) / a.min(b) > 1 << 20 || na.max(nb) / na.min(nb) > 1 << 20 {
                    o.n("stable too imbalanced for the exact comparison");
                    continue;
                }
                let d1 = stable_d(amp as u128 * 2, na + nb, q, DK);
                let (e0, e1) = (d_err_at(amp, a as u128, b as u128, d0), d_err_at(amp, na, nb, d1));
                let diff = if deposit { sat_sub(d1, d0) } else { sat_sub(d0, d1) };
                let slack = (w(s as u128) << 64usize) / w(EPS as u128) + U1024::from(4u64);
                let (e, tot) = (e0 + e1, e0);
                if d0 <= tot * w(2) {
                    continue;
                }
                let hi = (w(s as u128) * (diff + e) << 64usize) / (d0 - tot);
                let lo = (w(s as u128) * sat_sub(diff, e) << 64usize) / (d0 + tot);
                let (hi, lo) = (hi + hi / w(EPS as u128) + slack, sat_sub(lo, lo / w(EPS as u128) + slack));
                if deposit {
                    o.n("stable deposits");
                    check!(nn <= hi, "C18-stable-deposit", "{} minted {} (exact at most {:.6})", ctx(), n, f_(hi));
                    check!(nn + one >= lo, "C18-stable-deposit-low", "{} minted {} (exact at least {:.6})", ctx(), n, f_(lo));
                } else {
                    o.n("stable withdrawals");
                    check!(nn >= lo, "C18-stable-withdraw", "{} burned {} (exact at least {:.6})", ctx(), n, f_(lo));
                    check!(nn <= hi + one, "C18-stable-withdraw-high", "{} burned {} (exact at most {:.6})", ctx(), n, f_(hi));
                }
            }
            _ => {}
        }
        o.sample(|| format!("{} -> {} pool tokens", ctx(), n));
    }
    Ok(())
}
/// error of sqrt(rest/vol) when the quotient is only known to 1e-12, times supply (scaled 2^64)
fn root_slack(s: u64, vol: u128, rest: U1024) -> U1024 {
    // sqrt(q + 1e-12) - sqrt(q) <= min(1e-6, 1e-12/(2 sqrt q))
    let base = w(s as u128) << 64usize;
    if rest.is_zero() {
        return base / w(1_000_000);
    }
    // 1e-12 / (2 sqrt(rest/vol)) = 1e-12 sqrt(vol/rest) / 2
    let root = isqrt((w(vol) << 40usize) / rest); // * 2^20
    let e = base * root / (w(2_000_000_000_000) << 20usize);
    e.min(base / w(1_000_000)) * w(2)
}

// ------------------------------------------------------------------ C19
fn c19(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let off = r.chance(1, 2);
    let c = curve(r, if off { 3 } else { 0 });
    let fees = match r.below(3) {
        0 => Fees::default(),
        1 => Fees::small(r),
        _ => Fees::random(r),
    };
    let (mut a, mut b) = balances(r, &c);
    if r.chance(1, 10) {
        a = u64::MAX - r.log64(62);
        b = r.amount();
        o.n("64-bit extremes");
    }
    // no owner fee in half of the cases: nothing but the product rule
    let s = supply(r, a, b);
    let base = Pit::forge(r, c, fees, a, b, s).cast(r);
    let st = base.st();
    let offset = if let Curve::Offset(q) = c { q as u128 } else { 0 };
    for _ in 0..4 {
        let mut pit = base.clone();
        let a_in = r.chance(1, 2);
        let x = trade_size(r, &pit, a_in);
        let rec = pit.swap(a_in, x, 0);
        not_crash(&rec, "C19-swap", &base)?;
        let ctx = || format!("{} swap {} of {}", base.desc(), if a_in { "A for B" } else { "B for A" }, x);
        let rule = split(x, &fees).and_then(|(t, f, n)| exact_swap(&c, a_in, n, &st).unwrap().map(|(i, out)| (i + t + f, out, n, f)));
        let paid = -delta(&rec, &pit.user_tok(a_in));
        let got = delta(&rec, &pit.user_tok(!a_in));
        let vout = if a_in { st.b } else { st.a } as u128;
        let vin = if a_in { st.a } else { st.b } as u128;
        o.eval(true, &key(&base.p, &st, x, a_in as u64));
        if rec.outcome.ok() {
            o.n("accepted");
            let (taken, out, _, _) = match rule {
                Some(v) => v,
                None => return viol("C19-accepted", format!("{}: gave {} for {} although nothing is due", ctx(), got, paid)),
            };
            check!(got == out as i128, "C19-output", "{}: delivered {} instead of {}", ctx(), got, out);
            check!(paid == taken as i128, "C19-input", "{}: took {} instead of {}", ctx(), paid, taken);
            if taken < x as u128 {
                o.n("excess input left with the trader");
            }
            // independent of the formula: the product with fees set aside does not fall, and one more unit would lower it
            let (t, f, _) = split(x, &fees).unwrap();
            let st1 = pit.st();
            let (x0, y0) = if a_in { (st.a as u128, st.b as u128 + offset) } else { (st.b as u128 + offset, st.a as u128) };
            let (x1, y1) = if a_in { (st1.a as u128, st1.b as u128 + offset) } else { (st1.b as u128 + offset, st1.a as u128) };
            check!(w(x1 - t - f) * w(y1) >= w(x0) * w(y0), "C19-product-fell", "{}: product fell", ctx());
            o.sample(|| format!("{} -> took {} gave {}", ctx(), paid, got));
        } else {
            o.n("refused");
            if let Some((taken, out, net, of)) = rule {
                if out > vout {
                    o.n("offset output beyond the vault refused");
                    continue;
                }
                let x0 = vin + if !a_in { offset } else { 0 };
                let y0 = vout + if a_in { offset } else { 0 };
                let ok = (w(x0) * w(y0)).bits() <= 128
                    && w(x0) * w(y0) >= w(x0 + net)
                    && of == 0
                    && taken <= amt(&base.w.l, &base.user_tok(a_in)) as u128
                    && vin + taken <= u64::MAX as u128
                    && amt(&base.w.l, &base.user_tok(!a_in)) as u128 + out <= u64::MAX as u128;
                check!(!ok, "C19-refused", "{}: refused ({:?}) although {} for {} is due", ctx(), rec.outcome, out, taken);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C20
fn c20(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let c = curve(r, 2);
    let amp = if let Curve::Stable(x) = c { x } else { 1 };
    let fees = if r.chance(1, 2) { Fees::default() } else { Fees { owner: (0, 0), ..Fees::small(r) } };
    let bitsa = if r.chance(1, 6) { 62 } else { 48 };
    let a = r.logpos(bitsa);
    let b = match r.below(4) {
        0 => r.near(a).max(1),
        1 => a,
        _ => {
            // imbalance of up to about a thousand
            let k = r.logpos(10);
            if r.chance(1, 2) { (a / k).max(1) } else { a.saturating_mul(k).min(1 << 62) }
        }
    };
    let s = supply(r, a, b);
    let base = Pit::forge(r, c, fees, a, b, s).cast(r);
    let st = base.st();
    let d = stable_d_of(amp, a, b);
    let un = U1024::one() << DK as usize;
    let ed = match d_err(amp, a, b) {
        Some(e) => e,
        None => return Ok(()),
    };
    for _ in 0..3 {
        let a_in = r.chance(1, 2);
        let mut pit = base.clone();
        let x = trade_size(r, &pit, a_in);
        let rec = pit.swap(a_in, x, 0);
        not_crash(&rec, "C20-swap", &base)?;
        let ctx = || format!("{} swap {} of {}", base.desc(), if a_in { "A for B" } else { "B for A" }, x);
        let net = match split(x, &fees) {
            Some((_, _, n)) => n,
            None => continue,
        };
        let (vi, vo) = if a_in { (st.a, st.b) } else { (st.b, st.a) };
        o.eval(rec.outcome.ok(), &key(&base.p, &st, x, a_in as u64));
        // exact rest of the paying vault, for the invariant known to two units
        let nx = vi as u128 + net;
        let (ylo, yhi) = match (stable_y(amp, nx, sat_sub(d, ed)), stable_y(amp, nx, d + ed)) {
            (Some(l), Some(h)) => (l, h),
            _ => continue,
        };
        if rec.outcome.ok() {
            o.n("accepted");
            let got = delta(&rec, &pit.user_tok(!a_in));
            check!(got >= 0 && got as u128 <= vo as u128, "C20-exceeds-vault", "{}: {}", ctx(), got);
            let y = w(vo as u128 - got as u128) << DK as usize;
            check!(y + un * w(2) >= ylo, "C20-output-high", "{}: delivered {}, leaving {} although the invariant needs {:.3}", ctx(), got, vo as u128 - got as u128, f(ylo) / 2f64.powi(DK as i32));
            check!(y <= yhi + un * w(2), "C20-output-low", "{}: delivered {}, leaving {} although the invariant needs only {:.3}", ctx(), got, vo as u128 - got as u128, f(yhi) / 2f64.powi(DK as i32));
            // the invariant itself, allowing two smallest units of the paid-out balance
            let st1 = pit.st();
            let (a1, b1) = if a_in { (st1.a, st1.b.saturating_add(2)) } else { (st1.a.saturating_add(2), st1.b) };
            let d1 = stable_d_of(amp, a1, b1);
            o.n("invariant compared");
            check!(d1 + ed >= d, "C20-invariant-fell", "{}: D fell from {:.4} to {:.4}", ctx(), f(d) / 2f64.powi(DK as i32), f(stable_d_of(amp, st1.a, st1.b)) / 2f64.powi(DK as i32));
            // symmetry
            let mut mirror = Pit::forge(r, c, fees, b, a, s);
            let m = mirror.user_tok(!a_in);
            mirror.w.set_amount(&m, amt(&base.w.l, &base.user_tok(a_in)));
            let m = mirror.user_tok(a_in);
            mirror.w.set_amount(&m, amt(&base.w.l, &base.user_tok(!a_in)));
            let rec2 = mirror.swap(!a_in, x, 0);
            o.n("symmetric pairs");
            check!(rec2.outcome.ok() && delta(&rec2, &mirror.user_tok(a_in)) == got, "C20-asymmetric", "{}: gives {} but the mirrored pool gives {:?} {}", ctx(), got, rec2.outcome, delta(&rec2, &mirror.user_tok(a_in)));
            o.sample(|| format!("{} -> {}", ctx(), got));
        } else {
            o.n("refused");
            // refused although something is clearly due
            let due = sat_sub(w(vo as u128) << DK as usize, yhi + un * w(2));
            let ok = due > un
                && ylo > un * w(4)
                && x as u128 <= amt(&base.w.l, &base.user_tok(a_in)) as u128
                && vi as u128 + x as u128 <= u64::MAX as u128
                && amt(&base.w.l, &base.user_tok(!a_in)) as u128 + vo as u128 <= u64::MAX as u128;
            check!(!ok, "C20-refused", "{}: refused ({:?}) although {:.3} is due", ctx(), rec.outcome, f(due) / 2f64.powi(DK as i32));
        }
    }
    Ok(())
}
