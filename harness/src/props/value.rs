//! C29: the normalized value of the curves. C30: closed attacks on the fee-taking pools gain nothing.
use super::create::lib_curve;
use crate::big::*;
use crate::check;
use crate::lin::{self, Lin, K};
use crate::pools::{self, *};
use crate::report::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;

const ASSUME29: &[&str] = &["the library's SwapCurve objects, called directly: only the constant-price curve uses its value on chain"];
const ASSUME30: &[&str] = &[
    "in-process runtime of the harness: accounts, privileges and rollback as on a cluster; the real SPL token processor",
    "constant product, stable and offset pools are put into the ledger as state bytes, since no instruction creates them",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C29", rule: "a normalized value compared with the exact one of the curve at the same balances; distinct (curve, balances)", quick: 500_000, thorough: 12_000_000, need: &["constant_product", "constant_price", "stable", "offset", "linear", "empty side", "64-bit extremes", "grown balance", "exchanged balances", "after a swap", "scaled balances"], assumptions: ASSUME29, case: c29 },
        Prop { id: "C30", rule: "a closed sequence of operations of one attacker (or of attacker, fee owner and host together), closed by buying back or giving back what it changed: either all of the surplus does not buy back what is missing, or the attacker ends with at least what he began with of everything and the gain is judged; distinct (curve, fees, state, sequence)", quick: 150_000, thorough: 2_000_000, need: &["constant_product", "constant_price", "stable", "offset", "closed", "closed with equality", "lost", "swap", "hosted swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "withdrawn from the fee account", "repeated", "pool tokens bought back", "pool tokens given back", "token bought back", "coalition with the fee owner", "small pool"], assumptions: ASSUME30, case: c30 },
    ]
}

fn word(c: &Curve) -> [u64; 2] {
    match *c {
        Curve::Cp => [0, 0],
        Curve::Price(v) => [1, v],
        Curve::Stable(v) => [2, v],
        Curve::Offset(v) => [3, v],
        Curve::Linear { sn, sd, pn, pd } => [4, sn ^ sd.rotate_left(13) ^ pn.rotate_left(29) ^ pd.rotate_left(41)],
    }
}

// ------------------------------------------------------------------ C29
/// the library's value in units of 1e-12 (Err: it panicked)
fn lib_value(c: &Curve, a: u64, b: u64) -> Result<Option<U1024>, String> {
    let k = lib_curve(c);
    let v = guarded(|| k.calculator.normalized_value(a as u128, b as u128).map(|n| n.value.0))?;
    Ok(v.map(|l| {
        let mut x = U1024::zero();
        for (i, limb) in l.iter().enumerate() {
            x = x + (U1024::from(*limb) << (64 * i));
        }
        x
    }))
}
/// a library call; the harness' panic hook is already silent
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

fn value_right(o: &mut Obs, c: &Curve, a: u64, b: u64) -> Result<Option<U1024>, Violation> {
    let one = w(1_000_000_000_000);
    let got = match lib_value(c, a, b) {
        Ok(v) => v,
        Err(m) => return viol("C29-abort", format!("{:?} at {} / {}: {}", c, a, b, m)).map(|_| None),
    };
    o.eval(a > 0 && b > 0, &[word(c)[0], word(c)[1], a, b]);
    match *c {
        Curve::Cp | Curve::Offset(_) => {
            let off = if let Curve::Offset(q) = *c { q as u128 } else { 0 };
            let prod = w(a as u128) * w(b as u128 + off);
            // geometric mean, twelve decimals
            let exact = isqrt(prod * one * one);
            match got {
                Some(v) => {
                    let diff = if v > exact { v - exact } else { exact - v };
                    o.max("geometric mean off by (1e-12)", f(diff));
                    check!(diff <= w(2), "C29-geometric-mean", "{:?} at {} / {}: value {} e-12 instead of {}", c, a, b, v, exact);
                }
                None => check!(prod.bits() > 128, "C29-missing", "{:?} at {} / {}: no value", c, a, b),
            }
        }
        Curve::Price(p) => {
            let sum = w(a as u128) + w(b as u128) * w(p as u128);
            match got {
                Some(v) => {
                    let exact = (sum / w(2)) * one;
                    // at the end of the 128-bit range both halves are rounded down
                    let near = sum.bits() > 127;
                    check!(v == exact || (near && v + one == exact), "C29-mean-value", "{:?} at {} / {}: value {} e-12 instead of {}", c, a, b, v, exact);
                }
                None => check!((w(b as u128) * w(p as u128)).bits() > 128, "C29-missing", "{:?} at {} / {}: no value", c, a, b),
            }
        }
        Curve::Stable(amp) => {
            if let (Some(v), Some(e)) = (got, d_err(amp, a, b)) {
                let d = stable_d_of(amp, a, b);
                let lib = (v << DK as usize) / one;
                check!(v % one == U1024::zero(), "C29-stable-fraction", "{:?} at {} / {}: value {} e-12 is not whole", c, a, b, v);
                check!(lib <= d + e && lib + e >= d, "C29-stable-value", "{:?} at {} / {}: value {} instead of about {}", c, a, b, v / one, d >> DK as usize);
                o.n("stable values compared");
            } else if got.is_none() {
                // the solver's own range: moderate pools always have a value
                check!(a == 0 || b == 0 || a > 1 << 48 || b > 1 << 48 || amp > 1 << 20 || d_err(amp, a, b).is_none(), "C29-missing", "{:?} at {} / {}: no value", c, a, b);
            }
        }
        Curve::Linear { .. } => {
            let l = Lin::of(c);
            if let Some(m) = got {
                // documented: value of the collateral at the curve's position plus token B, leading 32 bits
                let pos = l.inv(w(a as u128));
                let e = l.pos_err(a as u128);
                let b = w(b as u128) << K;
                let scale = |x: U1024| -> (U1024, usize) {
                    let v = (x * one * w(1_000_000)) >> K;
                    let bits = v.bits();
                    (if bits > 32 { v >> (bits - 32) } else { v }, bits)
                };
                let (lo, lb) = scale(sat_sub(pos, e) + b);
                let (hi, hb) = scale(pos + e + b);
                let ok = if hb > lb + 1 {
                    // the documented precision leaves even the magnitude open
                    true
                } else if lb == hb {
                    m >= sat_sub(lo, w(1)) && m <= hi + w(1)
                } else if hb > 32 {
                    m >= lo || m <= hi + w(1)
                } else {
                    m >= sat_sub(lo, w(1)) && m <= hi + w(1)
                };
                check!(ok, "C29-linear-value", "{:?} at {} / {}: leading bits {} instead of {}..{}", c, a, b >> K, m, lo, hi);
            }
        }
    }
    Ok(got)
}

fn c29(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = r.below(5);
    let (c, mut a, mut b) = if which == 4 {
        let l = lin::params(r);
        let (a, b) = (r.amount(), r.amount());
        (l.curve(), a, b)
    } else {
        let c = pools::curve(r, which);
        let (a, b) = balances(r, &c);
        (c, a, b)
    };
    if r.chance(1, 12) {
        a = u64::MAX - r.log64(62);
        b = if r.chance(1, 2) { r.amount() } else { u64::MAX - r.log64(62) };
        o.n("64-bit extremes");
    }
    if r.chance(1, 20) {
        if r.chance(1, 2) {
            a = 0
        } else {
            b = 0
        }
        o.n("empty side");
    }
    o.n(c.kind());
    let v = value_right(o, &c, a, b)?;
    let one = w(1_000_000_000_000);
    // what one unit of a whole-number or twelve-decimal value may hide
    let amp = if let Curve::Stable(x) = c { x } else { 1 };
    // error of the stable solver at given balances
    let err = |a: u64, b: u64| -> Option<U1024> { d_err(amp, a, b).map(|e| ((e * one) >> DK as usize) + one) };
    let grain = match c {
        Curve::Stable(_) => match err(a, b) {
            Some(e) => e * w(2),
            None => return Ok(()),
        },
        Curve::Linear { .. } => return Ok(()),
        Curve::Price(_) => one,
        _ => w(4),
    };
    // more of a token never lowers the value
    {
        let (mut a2, mut b2) = (a, b);
        let by = match r.below(3) {
            0 => r.range(1, 3),
            1 => r.log64(30),
            _ => r.amount(),
        };
        if r.chance(1, 2) {
            a2 = a2.saturating_add(by)
        } else {
            b2 = b2.saturating_add(by)
        }
        let v2 = value_right(o, &c, a2, b2)?;
        if let (Some(x), Some(y)) = (v, v2) {
            let grain = match (&c, err(a2, b2)) {
                (Curve::Stable(_), Some(e)) => grain + e,
                (Curve::Stable(_), None) => return Ok(()),
                _ => if let Curve::Price(_) = c { if x.bits() > 160 { one } else { w(0) } } else { grain },
            };
            o.n("grown balance");
            check!(y + grain >= x, "C29-not-monotone", "{:?}: {} / {} is worth {} e-12 but {} / {} {}", c, a, b, x, a2, b2, y);
        }
    }
    // a token is a token: exchanging the balances of a symmetric curve keeps the value
    if matches!(c, Curve::Cp | Curve::Stable(_)) {
        let v2 = value_right(o, &c, b, a)?;
        let grain = match c {
            Curve::Stable(_) => grain + err(b, a).unwrap_or(one),
            _ => grain,
        };
        o.n("exchanged balances");
        match (v, v2) {
            (Some(x), Some(y)) => {
                check!(x <= y + grain && y <= x + grain, "C29-asymmetric", "{:?}: {} / {} is worth {} e-12 but exchanged {}", c, a, b, x, y);
            }
            (None, None) => {}
            _ => check!(matches!(c, Curve::Stable(_)), "C29-asymmetric", "{:?}: {} / {} is worth {:?} but exchanged {:?}", c, a, b, v, v2),
        }
    }
    // dimension of tokens: twice the pool is worth twice as much
    let k = r.range(2, 1000);
    if !matches!(c, Curve::Offset(_)) && a < u64::MAX / k && b < u64::MAX / k {
        let v2 = value_right(o, &c, a * k, b * k)?;
        if let (Some(x), Some(y)) = (v, v2) {
            o.n("scaled balances");
            let mut g = (grain + w(4)) * w(k as u128 + 1);
            if let Curve::Stable(_) = c {
                // its product term adds one to each doubled balance, which does not scale
                let (d, dk) = (stable_d_of(amp, a, b) * w(k as u128), stable_d_of(amp, a * k, b * k));
                g = g + (((if dk > d { dk - d } else { d - dk }) * one) >> DK as usize) + err(a * k, b * k).unwrap_or(one);
            }
            check!(x * w(k as u128) <= y + g && y <= x * w(k as u128) + g, "C29-scale", "{:?}: {} / {} is worth {} e-12 but {} times that {}", c, a, b, x, k, y);
        }
    }
    // a swap computed by the same curve object keeps the value
    let side = r.chance(1, 2);
    let x = match r.below(3) {
        0 => r.range(1, 100),
        1 => r.near(if side { a } else { b }),
        _ => r.amount(),
    };
    let lib = lib_curve(&c);
    let dir = if side { token_bonding_curve::curve::calculator::TradeDirection::AtoB } else { token_bonding_curve::curve::calculator::TradeDirection::BtoA };
    let (src, dst) = if side { (a, b) } else { (b, a) };
    let s = guarded(|| lib.calculator.swap_without_fees(x as u128, src as u128, dst as u128, dir));
    if let (Some(before), Ok(Some(s))) = (v, s) {
        let (taken, given) = (s.source_amount_swapped, s.destination_amount_swapped);
        if given <= dst as u128 && src as u128 + taken <= u64::MAX as u128 {
            let (src2, dst2) = ((src as u128 + taken) as u64, dst - given as u64);
            let (a2, b2) = if side { (src2, dst2) } else { (dst2, src2) };
            let after = value_right(o, &c, a2, b2)?;
            if let Some(after) = after {
                let slack = match c {
                    // the output of a stable swap is right to two smallest units
                    Curve::Stable(_) => match err(a2, b2) {
                        Some(e) => {
                            let (a3, b3) = if side { (a2, b2.saturating_add(2)) } else { (a2.saturating_add(2), b2) };
                            let d = stable_d_of(amp, a3, b3);
                            let d0 = stable_d_of(amp, a2, b2);
                            grain + e + ((d - d0) >> DK as usize) * one + one
                        }
                        None => return Ok(()),
                    },
                    Curve::Price(_) => if before.bits() > 160 { one * w(2) } else { w(0) },
                    _ => w(4),
                };
                o.n("after a swap");
                check!(after + slack >= before, "C29-swap-lowers-value", "{:?}: swapping {} of {} at {} / {} ({} for {}) lowers the value from {} to {} e-12", c, x, if side { "A" } else { "B" }, a, b, taken, given, before, after);
            }
        }
    }
    o.sample(|| format!("{:?} at {} / {} is worth {:?} e-12", c, a, b, v));
    Ok(())
}

// ------------------------------------------------------------------ C30
/// what the attacker, alone or with the fee owner and the host, holds
fn wealth(pit: &Pit, all: bool) -> (u64, u64, i128) {
    let l = &pit.w.l;
    let mut p = amt(l, &pit.up) as i128;
    if all {
        p += amt(l, &pit.p.fee_acct) as i128 + amt(l, &pit.host) as i128;
    }
    (amt(l, &pit.ua), amt(l, &pit.ub), p)
}

fn crash(rec: &Record, what: &str, pit: &Pit) -> R {
    match &rec.outcome {
        Outcome::Panic(m) => viol("C30-abort", format!("{} panicked: {} on {}", what, m, pit.desc())),
        _ => Ok(()),
    }
}

fn ratio(a: u64, b: u64) -> u64 {
    let (lo, hi) = (a.min(b), a.max(b));
    if lo == 0 {
        u64::MAX
    } else {
        hi / lo + 1
    }
}

fn c30(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let which = match r.below(8) {
        0..=2 => 0,
        3 | 4 => 1,
        5 | 6 => 2,
        _ => 3,
    };
    let c = match which {
        2 => Curve::Stable(match r.below(4) {
            0 => 1,
            1 => r.range(1, 10),
            _ => r.logpos(12),
        }),
        1 => Curve::Price(match r.below(3) {
            0 => 1,
            1 => r.range(2, 20),
            _ => r.logpos(30),
        }),
        _ => pools::curve(r, which),
    };
    let fees = match r.below(6) {
        0 => Fees::random(r),
        1 => Fees::small(r),
        2 => Fees { trade: (0, 0), ..Fees::small(r) },
        // nothing that makes up for a rounding error
        _ => Fees::default(),
    };
    let small = r.chance(1, 2);
    let bits = if small { 14 } else { 46 };
    if small {
        o.n("small pool");
    }
    let a = r.logpos(bits).max(2);
    let b = match c {
        Curve::Stable(_) => {
            let k = r.logpos(4);
            if r.chance(1, 2) { a.saturating_mul(k) } else { (a / k).max(2) }
        }
        Curve::Price(p) => match r.below(2) {
            0 => r.near(a / p).max(1),
            _ => r.logpos(bits),
        },
        Curve::Offset(_) => if r.chance(1, 2) { r.log64(bits) } else { r.near(a) },
        _ => if r.chance(1, 2) { r.near(a).max(2) } else { r.logpos(bits).max(2) },
    };
    let s = match r.below(4) {
        0 => r.range(2, 200),
        1 => r.near(a).max(2),
        2 => r.logpos(40).max(2),
        _ => INITIAL_SUPPLY,
    };
    let mut pit = Pit::forge(r, c, fees, a, b, s);
    // the attacker owns part of the pool
    let share: u64 = match r.below(4) {
        0 => s / 2,
        1 => s - s / 10,
        2 => s / 100,
        _ => 0,
    };
    // never all of it
    let share = share.min(s - 1);
    let (rest, up, fa) = (pit.rest, pit.up, pit.p.fee_acct);
    pit.w.set_amount(&rest, s - share);
    pit.w.set_amount(&up, share);
    pit.w.set_amount(&fa, 0);
    for (k, v) in [(pit.ua, a), (pit.ub, b)] {
        pit.w.set_amount(&k, u64::MAX - v);
    }
    let all = r.chance(1, 2);
    if all {
        o.n("coalition with the fee owner");
    }
    o.n(c.kind());
    let start = pit.st();
    let begin = pit.desc();
    let w0 = wealth(&pit, all);
    let mut hist: Vec<String> = vec![];
    let mut n_ops = 0u64;
    let (mut smin, mut smax) = (s, s);
    let mut ratio_max = ratio(a, b);
    let mut hash = 0u64;
    let mut see = |pit: &Pit, n: &mut u64| {
        let st = pit.st();
        smin = smin.min(st.s.max(1));
        smax = smax.max(st.s);
        ratio_max = ratio_max.max(ratio(st.a, st.b));
        *n += 1;
    };
    let steps = r.range(1, 6);
    for _ in 0..steps {
        let times = if r.chance(1, 6) { r.range(2, 12) } else { 1 };
        if times > 1 {
            o.n("repeated");
        }
        let kind = r.below(7);
        let side = r.chance(1, 2);
        let pick = r.below(4);
        let z = r.range(1, 20);
        let frac = r.range(1, 1000);
        let fine = r.log64(40);
        for _ in 0..times {
            let st = pit.st();
            let v = if side { st.a } else { st.b };
            let of = |t: u64| -> u64 {
                match pick {
                    0 => z,
                    1 => ((t as u128 * frac as u128) / 1000).min(u64::MAX as u128) as u64,
                    2 => fine.min(t),
                    _ => (t / z).saturating_add(z % 3),
                }
            };
            // never drain a side almost completely: the curves' precision is relative to what is left
            let x = of(v).min(v - v / 10);
            let (what, x, rec) = match kind {
                0 | 1 => {
                    // payment of up to ten times the vault
                    let x = if frac % 5 == 0 { of(v).saturating_mul(frac % 9 + 1) } else { of(v) };
                    ("swap", x, pit.swap(side, x, 0))
                }
                2 => {
                    let x = of(v);
                    ("hosted swap", x, pit.swap_hosted(side, x, 0))
                }
                3 => {
                    let m = of(st.s);
                    ("deposit all", m, pit.deposit_all(m, u64::MAX, u64::MAX))
                }
                4 => {
                    let m = of(st.s).min(st.s - st.s / 10);
                    if all && frac % 3 == 0 {
                        o.n("withdrawn from the fee account");
                        ("withdraw all", m, pit.withdraw_all(m, 0, 0, true))
                    } else {
                        ("withdraw all", m, pit.withdraw_all(m, 0, 0, false))
                    }
                }
                5 => ("deposit single", of(v), pit.deposit_single(side, of(v), 0)),
                _ => ("withdraw single", x, pit.withdraw_single(side, x, u64::MAX, false)),
            };
            crash(&rec, what, &pit)?;
            if !rec.outcome.ok() {
                break;
            }
            o.n(what);
            see(&pit, &mut n_ops);
            hash = hash.rotate_left(9) ^ x ^ (kind << 60) ^ ((side as u64) << 59);
            if hist.len() < 24 {
                hist.push(format!("{} {} {}", what, if side { "A" } else { "B" }, x));
            }
        }
    }
    if n_ops == 0 {
        return Ok(());
    }
    // close: first the pool tokens, then the token that is missing, then what fees were minted meanwhile
    let mut closed = false;
    let mut lost = false;
    for _ in 0..4 {
        let now = wealth(&pit, all);
        let dp = now.2 - w0.2;
        if dp < 0 {
            let rec = pit.deposit_all((-dp) as u64, u64::MAX, u64::MAX);
            crash(&rec, "deposit all", &pit)?;
            if !rec.outcome.ok() {
                break;
            }
            hist.push(format!("close: deposit all {}", -dp));
            o.n("pool tokens bought back");
            see(&pit, &mut n_ops);
        } else if dp > 0 {
            // from the fee account as far as it is the attackers', the rest from the user's
            let mut left = dp as u64;
            for from_fee in [true, false] {
                if from_fee && !all {
                    continue;
                }
                let k = if from_fee { pit.p.fee_acct } else { pit.up };
                let m = left.min(amt(&pit.w.l, &k));
                if m == 0 {
                    continue;
                }
                let rec = pit.withdraw_all(m, 0, 0, from_fee);
                crash(&rec, "withdraw all", &pit)?;
                if rec.outcome.ok() {
                    // a withdrawal fee ends up with the fee owner
                    left -= m;
                    hist.push(format!("close: withdraw all {}", m));
                    o.n("pool tokens given back");
                    see(&pit, &mut n_ops);
                }
            }
        }
        let now = wealth(&pit, all);
        let (da, db) = (now.0 as i128 - w0.0 as i128, now.1 as i128 - w0.1 as i128);
        if now.2 >= w0.2 && da >= 0 && db >= 0 {
            closed = true;
            break;
        }
        if da <= 0 && db <= 0 && now.2 <= w0.2 {
            // nothing left to buy the missing token with
            lost = true;
            break;
        }
        if da < 0 || db < 0 {
            // buy the missing token with as little of the other as possible
            let a_in = db < 0;
            let (missing, spare) = if a_in { ((-db) as u64, da as u64) } else { ((-da) as u64, db as u64) };
            let get = |pit: &Pit, x: u64| -> Option<u64> {
                let mut t = pit.clone();
                let rec = t.swap(a_in, x, 0);
                if rec.outcome.ok() {
                    Some(delta(&rec, &t.user_tok(!a_in)).max(0) as u64)
                } else {
                    None
                }
            };
            // all of the spare token does not buy it: a loss
            let (mut lo, mut hi) = (0u64, spare);
            match get(&pit, hi) {
                Some(g) if g >= missing => {}
                g => {
                    lost = g.is_some();
                    break;
                }
            }
            for _ in 0..64 {
                if lo + 1 >= hi {
                    break;
                }
                let mid = lo + (hi - lo) / 2;
                match get(&pit, mid) {
                    Some(g) if g >= missing => hi = mid,
                    _ => lo = mid,
                }
            }
            let rec = pit.swap(a_in, hi, 0);
            crash(&rec, "swap", &pit)?;
            if !rec.outcome.ok() {
                break;
            }
            hist.push(format!("close: swap {} {}", if a_in { "A" } else { "B" }, hi));
            o.n("token bought back");
            see(&pit, &mut n_ops);
        }
        let now = wealth(&pit, all);
        if now.2 >= w0.2 && now.0 >= w0.0 && now.1 >= w0.1 {
            closed = true;
            if now.2 == w0.2 {
                break;
            }
        }
    }
    let now = wealth(&pit, all);
    if !closed || now.2 < w0.2 || now.0 < w0.0 || now.1 < w0.1 {
        if lost {
            let wd = word(&c);
            o.eval(true, &[wd[0], wd[1], a, b, s, hash, n_ops, fees.trade.0, fees.owner.0]);
            o.n("lost");
        } else {
            o.n("not closed");
        }
        return Ok(());
    }
    o.n("closed");
    let (da, db, dp) = (now.0 - w0.0, now.1 - w0.1, now.2 - w0.2);
    if da == 0 && db == 0 && dp == 0 {
        o.n("closed with equality");
    }
    let wd = word(&c);
    o.eval(true, &[wd[0], wd[1], a, b, s, hash, n_ops, fees.trade.0, fees.owner.0]);
    let swing = smax as f64 / smin as f64;
    let n = n_ops as f64;
    let msg = |bound: f64| format!("{} ({}): {:?} leaves the attacker with {} A, {} B and {} pool tokens more (bound {:.3e}); pool now {:?}, was {:?}", begin, if all { "with fee owner and host" } else { "alone" }, hist, da, db, dp, bound, pit.st(), start);
    match c {
        Curve::Cp | Curve::Offset(_) => {
            // fractions of the vaults
            let gain = da as f64 / a as f64 + if b == 0 { if db > 0 { 1e9 } else { 0.0 } } else { db as f64 / b as f64 };
            let bound = 1e-10 * n * swing;
            o.max("gain as a fraction of the vaults / bound", gain / bound);
            check!(gain <= bound, "C30-product", "{}", msg(bound));
        }
        Curve::Price(p) => {
            let gain = da as f64 + db as f64 * p as f64;
            let bound = 2.0 * n * swing;
            o.max("gain in units of A / bound", gain / bound);
            check!(gain <= bound, "C30-price", "{}", msg(bound));
        }
        _ => {
            if ratio_max > 100 {
                o.n("too unbalanced to judge");
                return Ok(());
            }
            let gain = (da + db) as f64;
            let bound = 4.0 * n * swing * (ratio_max as f64).sqrt() + (a as f64 + b as f64) * 1e-10 * n * swing;
            o.max("stable gain / bound", gain / bound);
            o.max("stable gain", gain);
            check!(gain <= bound, "C30-stable", "{}", msg(bound));
        }
    }
    o.sample(|| format!("{} {:?}: +{} A +{} B +{} pool tokens", begin, hist, da, db, dp));
    Ok(())
}
