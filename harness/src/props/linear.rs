//! Linear price curve: solvency, no free lunch, pricing accuracy, partial fills, lock-down, monotonicity.
use crate::big::*;
use crate::check;
use crate::lin::*;
use crate::report::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone)]
pub struct Arena {
    pub w: World,
    pub pool: Pool,
    pub lin: Lin,
    pub user: Pubkey,
    pub ua: Pubkey,
    pub ub: Pubkey,
}

impl Arena {
    /// pool in an arbitrary state (a, b in the vaults); the user owns the rest of both supplies
    pub fn forged(r: &mut Rng, lin: Lin, a: u64, b: u64) -> Arena {
        let mut w = World::new();
        let (i, _) = w.forge_pool(r, lin.curve(), Fees::linear(), a, b, INITIAL_SUPPLY, None);
        Self::finish(r, w, i, lin, a, b)
    }
    /// pool created by the program's own instruction
    pub fn created(r: &mut Rng, lin: Lin, b: u64) -> Option<Arena> {
        let mut w = World::new();
        let (i, _, rec) = w.init_pool(r, lin.curve(), Fees::linear(), 0, b);
        if !rec.outcome.ok() {
            return None;
        }
        Some(Self::finish(r, w, i, lin, 0, b))
    }
    fn finish(r: &mut Rng, mut w: World, i: usize, lin: Lin, a: u64, b: u64) -> Arena {
        let pool = w.pools[i].clone();
        let user = w.wallet(r);
        let ua = w.token(r, pool.mint_a, user, u64::MAX - a);
        let ub = w.token(r, pool.mint_b, user, u64::MAX - b);
        let pool = if r.chance(1, 8) {
            let side = r.chance(2, 3);
            w.wrap_sol(i, side, if side { &ua } else { &ub });
            w.pools[i].clone()
        } else {
            pool
        };
        Arena { w, pool, lin, user, ua, ub }
    }
    pub fn a(&self) -> u64 {
        amt(&self.w.l, &self.pool.vault_a)
    }
    pub fn b(&self) -> u64 {
        amt(&self.w.l, &self.pool.vault_b)
    }
    /// what the user can put in
    pub fn own(&self, buy: bool) -> u64 {
        amt(&self.w.l, if buy { &self.ua } else { &self.ub })
    }
    /// buy: token A in. Returns (taken, given) as seen in the ledger.
    pub fn trade(&mut self, buy: bool, amount: u64) -> Result<(u64, u64), Outcome> {
        let (s, d) = if buy { (self.ua, self.ub) } else { (self.ub, self.ua) };
        let ix = swap_ix(&self.pool, self.user, s, d, buy, amount, 0);
        let rec = self.w.l.exec(&ix);
        if rec.outcome.ok() {
            Ok(((-delta(&rec, &s)) as u64, delta(&rec, &d) as u64))
        } else {
            Err(rec.outcome)
        }
    }
    /// token B position of the curve implied by the vault, floor in 2^-K units
    pub fn pos(&self) -> U1024 {
        self.lin.inv(w(self.a() as u128))
    }
    /// exact cost (rounded up) of everything left in the vault; None if beyond u64
    pub fn cost_of_rest(&self) -> U1024 {
        let p = self.pos() + (w(self.b() as u128) << K);
        sat_sub(self.lin.fk_ceil(p), w(self.a() as u128))
    }
    pub fn desc(&self) -> String {
        format!(
            "slope={}/{} p0={}/{} vaultA={} vaultB={}",
            self.lin.sn, self.lin.sd, self.lin.pn, self.lin.pd,
            self.a(),
            self.b()
        )
    }
}

fn fx(x: f64) -> u64 {
    if x < 0.0 {
        0
    } else if x >= 1.8e19 {
        u64::MAX
    } else {
        x as u64
    }
}

/// a start state: (token A vault, token B vault)
pub fn state(r: &mut Rng, lin: &Lin) -> (u64, u64) {
    let b = match r.below(4) {
        0 => r.logpos(64),
        1 => r.logpos(50),
        2 => 10u64.pow(r.range(0, 18) as u32) * r.range(1, 9),
        _ => r.logpos(36),
    };
    let a = match r.below(8) {
        0 => 0,
        1 | 2 => {
            // exactly on the curve: a = ceil(F(sold)) for an integer number of sold tokens
            let sold = r.log64(60) as u128;
            let f = lin.f_ceil(sold);
            to_u128(f).filter(|x| *x < u64::MAX as u128).map(|x| x as u64).unwrap_or_else(|| r.log64(62))
        }
        3 => {
            // just off the curve
            let sold = r.log64(50) as u128;
            let f = lin.f_ceil(sold);
            let x = to_u128(f).filter(|x| *x < u64::MAX as u128).map(|x| x as u64).unwrap_or_else(|| r.log64(62));
            r.near(x)
        }
        4 => r.log64(24),
        5 => {
            let bits = r.range(2, 190) as usize;
            match lin.at_bit_boundary(bits) {
                Some(x) => {
                    if r.chance(1, 2) {
                        x.saturating_sub(r.below(2)).saturating_add(r.below(2))
                    } else {
                        x.saturating_sub(r.log64(20))
                    }
                }
                None => r.log64(63),
            }
        }
        _ => r.log64(63),
    };
    (a.min(u64::MAX - 1), b)
}

/// trade size worth trying in this state
pub fn size(r: &mut Rng, ar: &Arena, buy: bool) -> u64 {
    let lin = ar.lin;
    let p = to_f64k(ar.pos());
    let price = lin.price(p).max(1e-30);
    if buy {
        let c = to_u128(ar.cost_of_rest()).filter(|c| *c <= u64::MAX as u128).map(|c| c as u64);
        match r.below(8) {
            0 => r.amount(),
            1 => fx(price * r.range(1, 20) as f64).saturating_add(r.below(2)),
            2 => match c {
                Some(c) => r.near(c),
                None => r.amount(),
            },
            3 => match c {
                Some(c) => r.range(0, c),
                None => r.amount(),
            },
            4 => match c {
                Some(c) => c.saturating_add(r.log64(30)),
                None => r.log64(64),
            },
            5 => fx(price * r.logpos(40) as f64),
            6 => r.log64(64),
            _ => r.near(ar.a()),
        }
    } else {
        let pi = fx(p);
        match r.below(8) {
            0 => r.amount(),
            1 => r.near(pi),
            2 => r.range(1, pi.max(1)),
            3 => r.range(1, 5),
            4 => fx(r.range(1, 50) as f64 / price),
            5 => pi.saturating_add(r.log64(20)),
            6 => r.log64(64).min(pi),
            _ => r.logpos(40).min(pi.max(1)),
        }
    }
}


/// fixed-point slack: the 18-decimal resolution of the last operations, in token B
fn slack() -> U1024 {
    U1024::one() << (K - 56)
}
/// vault balance `a` covers the price line up to `pos`, within half_a halves of an A unit and the 18-decimal slack
pub fn covered(lin: &Lin, a: u64, pos: U1024, half_a: bool) -> bool {
    let d = lin.d() << (2 * K);
    let mut have = w(a as u128) * d + (d >> 56);
    if half_a {
        have = have + (d >> 1);
    }
    have >= lin.f_num(sat_sub(pos, slack()))
}

/// One trade watched by the collateral monitor. `a0,b0` before, `a1,b1` after.
/// Returns the drop of the collateral potential F^-1(A)+B in K-fixed B units (zero unless filled partially).
pub fn watch(lin: &Lin, buy: bool, a0: u64, b0: u64, a1: u64, b1: u64, tag: &str, ctx: &dyn Fn() -> String) -> Result<U1024, Violation> {
    let p0 = lin.inv(w(a0 as u128));
    // position the trade should have led to
    let e = p0 + (w(b0 as u128) << K);
    let bb = w(b1 as u128) << K;
    let p1 = sat_sub(e, bb);
    let drop = || sat_sub(e, lin.inv(w(a1 as u128)) + bb);
    if covered(lin, a1, p1, false) {
        return Ok(drop());
    }
    let mk = |sig: String| {
        Err(Violation {
            sig,
            msg: format!("{}: vaults {}/{} -> {}/{}: vault A does not cover position {:.6}", ctx(), a0, b0, a1, b1, to_f64k(p1)),
        })
    };
    let emptied = if buy { b1 == 0 } else { a1 == 0 };
    if !emptied {
        return mk(format!("{}-undercollateralized", tag));
    }
    if buy {
        if !covered(lin, a1, p1, true) {
            return mk(format!("{}-exhausting-buy-undercharged", tag));
        }
    } else if p1 > (U1024::one() << (K - 1)) + slack() {
        return mk(format!("{}-exhausting-sell-undercharged", tag));
    }
    Ok(drop())
}

// ---------------------------------------------------------------- C08 / C09

fn c08(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let b = match r.below(4) {
        0 => r.logpos(63),
        1 => r.logpos(40),
        _ => 10u64.pow(r.range(0, 18) as u32) * r.range(1, 9),
    };
    let mut ar = match Arena::created(r, lin, b) {
        Some(x) => x,
        None => {
            return viol("C08-not-created", format!("valid linear pool {:?} with {} token B refused", lin, b));
        }
    };
    o.n("pools");
    let steps = r.range(3, 24);
    let mut given_b: u128 = b as u128; // everything ever put into the token B vault other than by trades
    let mut deficit = U1024::zero();
    let mut nt = 0u64;
    let mut hist: Vec<String> = vec![];
    let bias = r.below(3);
    for _ in 0..steps {
        let (a0, b0) = (ar.a(), ar.b());
        if r.chance(1, 10) {
            // donation to a vault
            let side = r.chance(1, 2);
            let cur = if side { a0 } else { b0 };
            let own = amt(&ar.w.l, if side { &ar.ua } else { &ar.ub });
            let d = match r.below(3) {
                0 => r.range(1, 5),
                1 => r.log64(40),
                _ => r.near(cur),
            }
            .min(own);
            ar.w.set_amount(&ar.pool.vault(side), cur + d);
            let k = if side { ar.ua } else { ar.ub };
            ar.w.set_amount(&k, own - d);
            if !side {
                given_b += d as u128;
            }
            o.n("donations");
            hist.push(format!("donate {} {}", if side { "A" } else { "B" }, d));
            continue;
        }
        let buy = match bias {
            0 => r.chance(1, 2),
            1 => r.chance(3, 4),
            _ => r.chance(1, 4),
        };
        let mut x = size(r, &ar, buy);
        if !buy && r.chance(1, 3) {
            // sell what is actually outstanding
            let out = given_b.saturating_sub(b0 as u128) as u64;
            x = if r.chance(1, 2) { out } else { r.near(out) };
            o.n("sales around the outstanding amount");
        }
        let before = ar.desc();
        match ar.trade(buy, x) {
            Ok((t, g)) => {
                let (a1, b1) = (ar.a(), ar.b());
                let part = t < x;
                o.n(if part { "partial trades" } else { "full trades" });
                hist.push(format!("{} {} -> took {} gave {}", if buy { "buy" } else { "sell" }, x, t, g));
                check!(
                    (buy && a1 as u128 == a0 as u128 + t as u128 && b1 + g == b0) || (!buy && b1 as u128 == b0 as u128 + t as u128 && a1 + g == a0),
                    "C08-vault-mismatch",
                    "{}: vaults moved {}/{} -> {}/{} for took {} gave {}",
                    before, a0, b0, a1, b1, t, g
                );
                let h = hist.len();
                let hh = &hist;
                let d = watch(&lin, buy, a0, b0, a1, b1, "C08", &|| {
                    format!("slope={}/{} p0={}/{} after {:?}", lin.sn, lin.sd, lin.pn, lin.pd, &hh[h.saturating_sub(3)..])
                })?;
                // an exhausting sale only ever rounds away surplus dust; an exhausting buy rounds token A by half a unit
                if buy && b1 == 0 || !deficit.is_zero() {
                    deficit = deficit + d;
                }
                nt += 1;
                // (outside holders may sell more than was bought, against donated token A)
                let sold = w(given_b.saturating_sub(b1 as u128)) << K;
                check!(
                    covered(&lin, a1, sat_sub(sold, deficit + slack() * w(nt as u128)), false),
                    "C08-insolvent",
                    "slope={}/{} p0={}/{} initial B {}: after {:?} vault A {} does not cover {} tokens B sold",
                    lin.sn, lin.sd, lin.pn, lin.pd, b, hist, a1, to_f64k(sold)
                );
                o.eval(true, &[lin.sn, lin.sd, lin.pn, lin.pd, a0, b0, x, buy as u64]);
            }
            Err(Outcome::Err(_)) => {
                o.n("refused trades");
                check!(ar.a() == a0 && ar.b() == b0, "C08-failed-moved", "refused trade moved tokens");
            }
            Err(e) => {
                o.n("aborted trades");
                hist.push(format!("aborted {:?}", e));
            }
        }
    }
    // all outstanding tokens can be sold back: sell everything outstanding in one go
    let out = given_b.saturating_sub(ar.b() as u128) as u64;
    if out > 0 && ar.a() > 0 && r.chance(1, 2) {
        let (a0, b0) = (ar.a(), ar.b());
        if let Ok((t, g)) = ar.trade(false, out) {
            o.n("final resale");
            if t == out && deficit.is_zero() {
                // position zero reached: nothing outstanding
                o.n("resold everything");
            }
            watch(&lin, false, a0, b0, ar.a(), ar.b(), "C08", &|| format!("final resale of {} got {}", out, g))?;
        }
    }
    o.sample(|| format!("slope={}/{} p0={}/{} B={}: {:?}", lin.sn, lin.sd, lin.pn, lin.pd, b, hist));
    Ok(())
}

fn c09(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let (a, b) = state(r, &lin);
    let mut ar = Arena::forged(r, lin, a, b);
    // other people's trades first
    for _ in 0..r.below(4) {
        let buy = r.chance(2, 3);
        let x = size(r, &ar, buy);
        let _ = ar.trade(buy, x);
    }
    let start = ar.clone();
    let (a0, b0) = (ar.a(), ar.b());
    let p0 = ar.pos();
    let (ua0, ub0) = (amt(&ar.w.l, &ar.ua), amt(&ar.w.l, &ar.ub));
    let style = r.below(6);
    let mut allow = U1024::zero();
    let mut n = 0u64;
    let mut hist: Vec<String> = vec![];
    let mut do_trade = |ar: &mut Arena, o: &mut Obs, buy: bool, x: u64| -> Result<Option<(u64, u64)>, Violation> {
        let (a, b) = (ar.a(), ar.b());
        match ar.trade(buy, x) {
            Ok((t, g)) => {
                o.n(if buy { "buys" } else { "sells" });
                if t < x {
                    o.n("partial trades");
                }
                hist.push(format!("{} {} -> took {} gave {}", if buy { "buy" } else { "sell" }, x, t, g));
                let hh = &hist;
                let d = watch(&lin, buy, a, b, ar.a(), ar.b(), "C09", &|| {
                    format!("slope={}/{} p0={}/{} A={} B={} after {:?}", lin.sn, lin.sd, lin.pn, lin.pd, a, b, hh)
                })?;
                allow = allow + d;
                n += 1;
                Ok(Some((t, g)))
            }
            Err(_) => {
                o.n("refused");
                Ok(None)
            }
        }
    };
    match style {
        0 => {
            // buy, then sell it all back
            let x = size(r, &ar, true);
            if let Some((_, g)) = do_trade(&mut ar, o, true, x)? {
                let y = if r.chance(1, 3) { r.near(g) } else { g };
                do_trade(&mut ar, o, false, y)?;
            }
        }
        1 => {
            // sell, then buy back with the proceeds
            let x = size(r, &ar, false);
            if let Some((_, g)) = do_trade(&mut ar, o, false, x)? {
                do_trade(&mut ar, o, true, g)?;
            }
        }
        2 => {
            // many small trades one way, one the other way
            let x = size(r, &ar, true);
            let k = r.range(2, 8);
            let mut got = 0u64;
            for i in 0..k {
                let part = if i + 1 == k { x - x / k * (k - 1) } else { x / k };
                if let Some((_, g)) = do_trade(&mut ar, o, true, part)? {
                    got += g;
                }
            }
            do_trade(&mut ar, o, false, got)?;
        }
        3 => {
            let x = size(r, &ar, true);
            if let Some((_, g)) = do_trade(&mut ar, o, true, x)? {
                let k = r.range(2, 8);
                for i in 0..k {
                    let part = if i + 1 == k { g - g / k * (k - 1) } else { g / k };
                    do_trade(&mut ar, o, false, part)?;
                }
            }
        }
        4 => {
            // the same cycle over and over
            let x = size(r, &ar, true);
            for _ in 0..r.range(2, 8) {
                match do_trade(&mut ar, o, true, x)? {
                    Some((_, g)) => {
                        do_trade(&mut ar, o, false, g)?;
                    }
                    None => break,
                }
            }
        }
        _ => {
            for _ in 0..r.range(2, 10) {
                let buy = r.chance(1, 2);
                let x = size(r, &ar, buy);
                do_trade(&mut ar, o, buy, x)?;
            }
        }
    }
    let (ua1, ub1) = (amt(&ar.w.l, &ar.ua), amt(&ar.w.l, &ar.ub));
    if n > 0 {
        o.eval(n >= 2, &[lin.sn, lin.sd, lin.pn, lin.pd, a0, b0, ua1, ub1]);
        let dust = allow + slack() * w(2 * n as u128);
        if ub1 >= ub0 {
            o.n("histories with token B not reduced");
            // token A gained must be covered by dust
            check!(
                covered(&lin, ar.a(), sat_sub(p0, dust), false),
                "C09-profit",
                "slope={}/{} p0={}/{} A={} B={}: trader gained {} A and {} B by {:?}",
                lin.sn, lin.sd, lin.pn, lin.pd, a0, b0, ua1 as i128 - ua0 as i128, ub1 as i128 - ub0 as i128, hist
            );
            if allow.is_zero() && ua1 > ua0 {
                check!(dust > U1024::zero() && ua1 - ua0 <= 1, "C09-profit", "gained {} A by {:?}", ua1 - ua0, hist);
            }
        }
        if ua1 >= ua0 && ub1 > ub0 {
            o.n("histories with token A not reduced");
            check!(
                (w((ub1 - ub0) as u128) << K) <= dust,
                "C09-profit-b",
                "slope={}/{} p0={}/{} A={} B={}: trader gained {} B for nothing by {:?}",
                lin.sn, lin.sd, lin.pn, lin.pd, a0, b0, ub1 - ub0, hist
            );
        }
    }
    o.sample(|| format!("slope={}/{} p0={}/{} A={} B={}: {:?}", lin.sn, lin.sd, lin.pn, lin.pd, a0, b0, hist));
    // splitting a trade does not pay
    let buy = r.chance(1, 2);
    let x = size(r, &start, buy);
    if x >= 2 {
        let mut one = start.clone();
        let single = one.trade(buy, x);
        if let Ok((t, g)) = single {
            if t == x {
                let mut many = start.clone();
                let k = r.range(2, 5);
                let (mut left, mut got, mut ok) = (x, 0u64, true);
                for i in 0..k {
                    let part = if i + 1 == k { left } else { r.range(0, left) };
                    match many.trade(buy, part) {
                        Ok((t, g)) => {
                            got += g;
                            ok &= t == part;
                        }
                        Err(_) => {}
                    }
                    left -= part;
                }
                if ok {
                    o.n("split trades compared");
                    check!(
                        got <= g,
                        "C09-split-pays",
                        "{}: {} {} pays {} in one trade but {} when split into {}",
                        start.desc(), if buy { "buying with" } else { "selling" }, x, g, got, k
                    );
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10 / C11

fn c10(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let (a, b) = state(r, &lin);
    let base = Arena::forged(r, lin, a, b);
    let p0 = base.pos();
    let one = U1024::one() << K;
    for _ in 0..6 {
        let buy = r.chance(1, 2);
        let x = size(r, &base, buy).min(base.own(buy));
        let mut ar = base.clone();
        let res = ar.trade(buy, x);
        let ctx = || format!("{} {} {}", base.desc(), if buy { "buy with" } else { "sell" }, x);
        let (taken, given) = match res {
            Ok(v) => v,
            Err(Outcome::Err(_)) => (0, 0),
            Err(e) => return viol("C10-abort", format!("{}: {:?}", ctx(), e)),
        };
        let accepted = given > 0;
        o.n(if accepted { if buy { "buys" } else { "sells" } } else { "refused" });
        o.eval(accepted, &[lin.sn, lin.sd, lin.pn, lin.pd, a, b, x, buy as u64]);
        if buy {
            // lower bound on the output
            let p_end = lin.inv(w(a as u128 + x as u128));
            let tol = lin.pos_err(a as u128) + lin.pos_err(a as u128 + x as u128);
            let exact = sat_sub(p_end, p0);
            let due = (sat_sub(exact, tol) >> K).min(w(b as u128));
            // the whole rest of the pool may be worth nothing (less than one token A): such a trade takes nothing and is refused
            let worthless = given == 0 && lin.fk_floor(p0 + (w(b as u128) << K)) <= w(a as u128);
            if worthless {
                o.n("rest of the pool costs less than one token A");
            } else if !due.is_zero() && exact > tol {
                o.n("buys with a due output");
                check!(w(given as u128) >= due, "C10-buy-underpaid", "{}: gave {} although {} is due (exact {:.3})", ctx(), given, due, to_f64k(exact));
                let q = f(sat_sub(exact, w(given as u128) << K)) / f(tol + one);
                if given < b {
                    o.max("buy shortfall / tolerance", q);
                }
            }
            if accepted {
                watch(&lin, true, a, b, ar.a(), ar.b(), "C10", &ctx)?;
            }
        } else {
            let y = w(x as u128) << K;
            let p1 = sat_sub(p0, y) + lin.pos_err(a as u128) + one;
            let keep = lin.fk_ceil(p1) + U1024::one();
            let due = sat_sub(w(a as u128), keep);
            if !due.is_zero() {
                o.n("sells with a due output");
                check!(w(given as u128) >= due, "C10-sell-underpaid", "{}: gave {} although {} is due", ctx(), given, due);
            }
            if accepted {
                watch(&lin, false, a, b, ar.a(), ar.b(), "C10", &ctx)?;
            }
        }
        if accepted {
            o.sample(|| format!("{} -> took {} gave {}", ctx(), taken, given));
        }
    }
    Ok(())
}

fn c11(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let (a, b) = state(r, &lin);
    let base = Arena::forged(r, lin, a, b);
    let p0 = base.pos();
    let err = lin.pos_err(a as u128);
    let half = U1024::one() << (K - 1);
    for _ in 0..6 {
        let buy = r.chance(1, 2);
        let mut ar = base.clone();
        if buy {
            // cost of the whole rest, bounds
            let rest = w(b as u128) << K;
            let lo = sat_sub(lin.fk_floor(sat_sub(p0 + rest, slack())), w(a as u128));
            let hi = sat_sub(lin.fk_ceil(p0 + err + rest), w(a as u128)) + U1024::one();
            let mid = to_u128(hi).filter(|x| *x < ar.own(true) as u128).map(|x| x as u64);
            let x = match (mid, r.below(6)) {
                (Some(c), 0) => c.saturating_add(1),
                (Some(c), 1) => c.saturating_add(r.log64(40)),
                (Some(c), 2) => r.near(c),
                (Some(c), 3) => c.saturating_mul(r.range(2, 100)),
                (Some(c), 4) => r.range(c / 2, c),
                _ => size(r, &ar, true),
            }
            .min(ar.own(true));
            let own0 = amt(&ar.w.l, &ar.ua);
            let res = ar.trade(true, x);
            let ctx = || format!("{} buy with {} (rest costs {}..{})", base.desc(), x, lo, hi);
            match res {
                Ok((t, g)) => {
                    o.eval(true, &[lin.sn, lin.sd, lin.pn, lin.pd, a, b, x]);
                    check!(t <= x && g <= b, "C11-more-than-offered", "{}: took {} gave {}", ctx(), t, g);
                    check!(amt(&ar.w.l, &ar.ua) == own0 - t, "C11-remainder", "{}: took {} but user lost {}", ctx(), t, own0 - amt(&ar.w.l, &ar.ua));
                    if w(x as u128) >= hi {
                        o.n("buys beyond the end");
                        check!(g == b, "C11-not-exhausted", "{}: took {} gave {} of {}", ctx(), t, g, b);
                        check!(w(t as u128) <= hi && w(t as u128) + U1024::one() >= lo, "C11-wrong-charge", "{}: took {}", ctx(), t);
                        // the exact price of the rest to the nearest unit, in units of 1/(D 2^2K)
                        let unit = lin.d() << (2 * K);
                        let near = (unit >> 1) + (unit >> 30);
                        let paid = (w(a as u128) + w(t as u128)) * unit;
                        check!(paid + near >= lin.f_num(sat_sub(p0 + rest, slack())), "C11-undercharged", "{}: took {}", ctx(), t);
                        check!(paid <= lin.f_num(p0 + err + rest) + near, "C11-overcharged", "{}: took {}", ctx(), t);
                    } else if w(x as u128) + U1024::one() < lo {
                        o.n("buys within capacity");
                        check!(t == x, "C11-not-taken-in-full", "{}: took {} gave {}", ctx(), t, g);
                    } else {
                        o.n("buys right at the end");
                        check!(t == x || g == b, "C11-odd-partial", "{}: took {} gave {}", ctx(), t, g);
                    }
                }
                Err(Outcome::Err(_)) => {
                    o.n("refused");
                    // an exhausting buy is possible whenever its cost is positive
                    check!(!(w(x as u128) >= hi && b > 0 && lo > w(1)), "C11-exhausting-buy-refused", "{}: refused", ctx());
                }
                Err(e) => return viol("C11-abort", format!("{}: {:?}", ctx(), e)),
            }
        } else {
            let hi = (p0 + err + half) >> K; // most B that may be taken
            let lo = sat_sub(p0 + slack(), half + slack() + slack()) >> K;
            let room = ar.own(false);
            let p = to_u128(p0 >> K).filter(|x| *x < room as u128).map(|x| x as u64);
            let x = match (p, r.below(6)) {
                (Some(c), 0) => c.saturating_add(1),
                (Some(c), 1) => c.saturating_add(r.log64(40)),
                (Some(c), 2) => r.near(c),
                (Some(c), 3) => c.saturating_mul(r.range(2, 100)),
                (Some(c), 4) => c.saturating_add(fx(to_f64k(err))).saturating_add(r.below(4)),
                _ => size(r, &ar, false),
            }
            .min(room);
            let own0 = amt(&ar.w.l, &ar.ub);
            let res = ar.trade(false, x);
            let ctx = || format!("{} sell {} (position {:.4})", base.desc(), x, to_f64k(p0));
            match res {
                Ok((t, g)) => {
                    o.eval(true, &[lin.sn, lin.sd, lin.pn, lin.pd, a, b, x]);
                    check!(t <= x && g <= a, "C11-more-than-offered", "{}: took {} gave {}", ctx(), t, g);
                    check!(amt(&ar.w.l, &ar.ub) == own0 - t, "C11-remainder", "{}: took {} but user lost {}", ctx(), t, own0 - amt(&ar.w.l, &ar.ub));
                    if w(x as u128) << K > p0 + err + (U1024::one() << K) {
                        o.n("sells beyond the start");
                        check!(g == a, "C11-not-exhausted", "{}: took {} gave {} of {}", ctx(), t, g, a);
                        check!(w(t as u128) <= hi && w(t as u128) + U1024::one() >= lo && !(((w(t as u128) << K) + half + slack()) < p0), "C11-wrong-charge", "{}: took {}", ctx(), t);
                    } else if w(x as u128) << K <= p0 {
                        o.n("sells within capacity");
                        check!(t == x, "C11-not-taken-in-full", "{}: took {} gave {}", ctx(), t, g);
                    } else {
                        o.n("sells right at the start");
                        check!(t == x || g == a, "C11-odd-partial", "{}: took {} gave {}", ctx(), t, g);
                    }
                }
                Err(Outcome::Err(_)) => {
                    o.n("refused");
                    check!(
                        !(w(x as u128) << K > p0 + err + (U1024::one() << K) && a > 0 && p0 > half + slack()),
                        "C11-exhausting-sell-refused",
                        "{}: refused",
                        ctx()
                    );
                }
                Err(e) => return viol("C11-abort", format!("{}: {:?}", ctx(), e)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn c24(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let (a, b) = state(r, &lin);
    let base = Arena::forged(r, lin, a, b);
    for _ in 0..3 {
        let buy = r.chance(1, 2);
        let x = size(r, &base, buy);
        let mut xs = vec![x];
        for _ in 0..r.range(1, 4) {
            let d = match r.below(4) {
                0 => 1,
                1 => r.range(1, 4),
                2 => r.log64(40),
                _ => size(r, &base, buy) / 2,
            };
            xs.push(x.saturating_add(d));
        }
        xs.sort();
        xs.dedup();
        let mut last: Option<(u64, u64, u64)> = None;
        for x in xs {
            let mut ar = base.clone();
            if let Ok((t, g)) = ar.trade(buy, x) {
                if let Some((x0, t0, g0)) = last {
                    o.n(if buy { "buy pairs" } else { "sell pairs" });
                    o.eval(true, &[lin.sn, lin.sd, lin.pn, lin.pd, a, b, x, x0, buy as u64]);
                    check!(
                        g >= g0 && t >= t0,
                        "C24-not-monotone",
                        "{}: {} {} took {} gave {}, but {} took {} gave {}",
                        base.desc(), if buy { "buy with" } else { "sell" }, x0, t0, g0, x, t, g
                    );
                }
                last = Some((x, t, g));
            }
        }
        // same size twice
        let mut ar = base.clone();
        let probe = size(r, &base, true);
        let quote = |ar: &Arena, x: u64| {
            let mut c = ar.clone();
            c.trade(true, x).ok()
        };
        let q0 = quote(&ar, probe);
        let buy2 = r.chance(1, 2);
        let mv = if buy2 && r.chance(1, 2) { probe } else { size(r, &base, buy2) };
        if let (Some((t0, g0)), Ok(_)) = (q0, ar.trade(buy2, mv)) {
            if let Some((t1, g1)) = quote(&ar, probe) {
                if t0 == probe && t1 == probe && g0 < b && g1 < ar.b() {
                    o.n("price moves compared");
                    let e = |a: u64| lin.pos_err(a as u128);
                    let tol = e(a) + e(ar.a()) + lin.pos_err(a as u128 + probe as u128) + lin.pos_err(ar.a() as u128 + probe as u128) + (U1024::from(1u64) << K) + slack();
                    let (lo, hi) = if buy2 { (g1, g0) } else { (g0, g1) };
                    if lo > hi {
                        o.max("same-size buy inversion / tolerance", f(w((lo - hi) as u128) << K) / f(tol));
                    }
                    check!(
                        lo <= hi || (w((lo - hi) as u128) << K) <= tol,
                        "C24-price-moved-wrong-way",
                        "{}: buying with {} gave {}, after a {} of {} it gave {}",
                        base.desc(), probe, g0, if buy2 { "buy" } else { "sell" }, mv, g1
                    );
                }
            }
        }
        o.sample(|| format!("{} probe {}", base.desc(), probe));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let lin = params(r);
    let (a, b) = if r.chance(1, 4) { (if r.chance(1, 2) { 0 } else { r.log64(60) }, if r.chance(1, 2) { 0 } else { r.log64(60) }) } else { state(r, &lin) };
    let supply = match r.below(4) {
        0 => 0,
        1 => r.amount(),
        _ => INITIAL_SUPPLY,
    };
    let mut w = World::new();
    let created = r.chance(1, 3) && b > 0;
    let (i, dest) = if created {
        let (i, d, rec) = w.init_pool(r, lin.curve(), Fees::linear(), 0, b);
        check!(rec.outcome.ok(), "C12-not-created", "valid pool refused: {:?} B={} {:?}", lin, b, rec.outcome);
        o.n("created pools");
        (i, d)
    } else {
        w.forge_pool(r, lin.curve(), Fees::linear(), a, b, supply, None)
    };
    let p = w.pools[i].clone();
    let (a, b) = (amt(&w.l, &p.vault_a), amt(&w.l, &p.vault_b));
    let supply = mint_of(&w.l, &p.pool_mint).supply;
    let holder = tok(&w.l, &dest).owner;
    // the pool token holder trades and tries everything
    let ua = w.token(r, p.mint_a, holder, u64::MAX - a);
    let ub = w.token(r, p.mint_b, holder, u64::MAX - b);
    let p = if r.chance(1, 8) {
        w.wrap_sol(i, true, &ua);
        w.pools[i].clone()
    } else {
        p
    };
    // the fee account may hold pool tokens too
    let fee_src = r.chance(1, 6);
    for _ in 0..10 {
        let before = (amt(&w.l, &p.vault_a), amt(&w.l, &p.vault_b));
        if r.chance(1, 3) {
            let buy = r.chance(1, 2);
            let (s, d) = if buy { (ua, ub) } else { (ub, ua) };
            let x = r.amount();
            let rec = w.l.exec(&swap_ix(&p, holder, s, d, buy, x, 0));
            if rec.outcome.ok() {
                o.n("swaps");
                let (av, bv) = (amt(&w.l, &p.vault_a), amt(&w.l, &p.vault_b));
                check!(delta(&rec, &s) + delta(&rec, &p.vault(buy)) == 0, "C12-swap-fee", "swap took {} from the user but {} reached the vault", -delta(&rec, &s), delta(&rec, &p.vault(buy)));
                check!(delta(&rec, &d) + delta(&rec, &p.vault(!buy)) == 0, "C12-swap-fee", "swap paid {} but the vault lost {}", delta(&rec, &d), -delta(&rec, &p.vault(!buy)));
                check!(supply_delta(&rec, &p.pool_mint) == 0 && delta(&rec, &p.fee_acct) == 0, "C12-minted", "swap minted pool tokens");
                // no fee: the trade is never worse than the exact line by more than the precision
                let p0 = lin.inv(w_(before.0));
                if buy {
                    let tol = lin.pos_err(before.0 as u128) + lin.pos_err(before.0 as u128 + x as u128);
                    let exact = sat_sub(lin.inv(w_(before.0) + w_(x)), p0);
                    let due = (sat_sub(exact, tol) >> K).min(w_(before.1));
                    check!(w_(before.1 - bv) >= due, "C12-hidden-fee", "swap of {} gave {} although {} is due", x, before.1 - bv, due);
                } else {
                    let p1 = sat_sub(p0, w_(x) << K) + lin.pos_err(before.0 as u128) + (U1024::one() << K);
                    let due = sat_sub(w_(before.0), lin.fk_ceil(p1) + U1024::one());
                    check!(w_(before.0 - av) >= due, "C12-hidden-fee", "sale of {} gave {} although {} is due", x, before.0 - av, due);
                }
            }
            continue;
        }
        let amount = match r.below(4) {
            0 => r.amount(),
            1 => r.near(supply),
            2 => r.near(before.0),
            _ => r.near(before.1),
        };
        let lo_hi = |r: &mut Rng, hi: bool| if r.chance(3, 4) { if hi { u64::MAX } else { 0 } } else { r.amount() };
        let src = if fee_src { p.fee_acct } else { dest };
        let auth = if fee_src { p.fee_owner } else { holder };
        let side = r.chance(1, 2);
        let (ix, name) = match r.below(4) {
            0 => {
                let (x, y) = (lo_hi(r, true), lo_hi(r, true));
                (deposit_all_ix(&p, holder, ua, ub, dest, amount, x, y), "two-sided deposits refused")
            }
            1 => {
                let (x, y) = (lo_hi(r, false), lo_hi(r, false));
                (withdraw_all_ix(&p, auth, src, ua, ub, amount, x, y), "two-sided withdrawals refused")
            }
            2 => {
                let x = lo_hi(r, false);
                (deposit_single_ix(&p, holder, if side { ua } else { ub }, dest, amount, x), "single-sided deposits refused")
            }
            _ => {
                let x = lo_hi(r, true);
                (withdraw_single_ix(&p, auth, src, if side { ua } else { ub }, amount, x), "single-sided withdrawals refused")
            }
        };
        let rec = w.l.exec(&ix);
        check!(!rec.outcome.ok(), format!("C12-{}", name), "linear pool {:?} (A={} B={} supply={}): {} succeeded with amount {}", lin, before.0, before.1, supply, name, amount);
        o.n(name);
        o.eval(true, &[lin.sn, lin.sd, a, b, amount, supply]);
        check!(mint_of(&w.l, &p.pool_mint).supply == supply, "C12-supply", "pool token supply changed");
        check!(before == (amt(&w.l, &p.vault_a), amt(&w.l, &p.vault_b)), "C12-vaults", "vaults changed");
    }
    Ok(())
}
fn w_(x: u64) -> U1024 {
    w(x as u128)
}

const LIN_ASSUME: &[&str] = &[
    "the Solana runtime is replaced by an in-process ledger that runs the program's real entry point on real serialized input and the real SPL token 3.2 processor; compute limits are not modelled",
    "x86-64 build of the program instead of the BPF build (the program uses integer arithmetic only)",
    "positions may deviate by 18-decimal fixed-point resolution (2^-56 token B) in the trader's favour",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "one evaluation = one accepted trade inside a history, checked against the exact integral up to everything sold so far; non-trivial = accepted trade; distinct by curve, vaults, size, direction",
            quick: 180_000,
            thorough: 6_000_000,
            need: &["pools", "partial trades", "full trades", "donations", "final resale"],
            assumptions: LIN_ASSUME,
            case: c08,
        },
        Prop {
            id: "C09",
            rule: "one evaluation = one attacker history of trades from a random start state, compared on the attacker's balances; non-trivial = at least two accepted trades",
            quick: 300_000,
            thorough: 10_000_000,
            need: &["buys", "sells", "partial trades", "histories with token B not reduced", "split trades compared"],
            assumptions: LIN_ASSUME,
            case: c09,
        },
        Prop {
            id: "C10",
            rule: "one evaluation = one trade compared with the exact integral and exact inverse (1024-bit integers); non-trivial = accepted trade",
            quick: 300_000,
            thorough: 10_000_000,
            need: &["buys", "sells", "buys with a due output", "sells with a due output"],
            assumptions: LIN_ASSUME,
            case: c10,
        },
        Prop {
            id: "C11",
            rule: "one evaluation = one accepted trade at, below or beyond an end of the curve; distinct by curve, vaults and size",
            quick: 300_000,
            thorough: 10_000_000,
            need: &["buys beyond the end", "buys within capacity", "sells beyond the start", "sells within capacity", "buys right at the end", "sells right at the start"],
            assumptions: LIN_ASSUME,
            case: c11,
        },
        Prop {
            id: "C12",
            rule: "one evaluation = one deposit or withdrawal instruction sent to a linear pool; all must be refused; interleaved swaps are checked for fees and minted pool tokens",
            quick: 200_000,
            thorough: 3_000_000,
            need: &[
                "created pools",
                "swaps",
                "two-sided deposits refused",
                "two-sided withdrawals refused",
                "single-sided deposits refused",
                "single-sided withdrawals refused",
            ],
            assumptions: LIN_ASSUME,
            case: c12,
        },
        Prop {
            id: "C24",
            rule: "one evaluation = one pair of accepted trades of different size from the same state; same-size quotes before and after a move are compared as well",
            quick: 180_000,
            thorough: 6_000_000,
            need: &["buy pairs", "sell pairs", "price moves compared"],
            assumptions: LIN_ASSUME,
            case: c24,
        },
    ]
}
