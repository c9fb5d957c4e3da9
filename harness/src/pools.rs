//! Fee-taking pools (constant price, constant product, offset, stable): random states, users, exact oracles.
use crate::big::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;
use solana_program::{program_option::COption, pubkey::Pubkey};

/// fixed-point relative precision the curves document (11 digits), as 1/EPS
pub const EPS: u64 = 100_000_000_000;

#[derive(Clone)]
pub struct Pit {
    pub w: World,
    pub p: Pool,
    pub user: Pubkey,
    pub ua: Pubkey,
    pub ub: Pubkey,
    pub up: Pubkey,
    pub host: Pubkey,
    pub rest: Pubkey,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct St {
    pub a: u64,
    pub b: u64,
    pub s: u64,
}

pub fn price(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 1,
        1 => r.range(2, 10),
        2 => *r.pick(&[100, 1000, 1_000_000, 1_000_000_000]),
        3 => r.logpos(64),
        4 => u64::MAX - r.below(2),
        _ => r.logpos(24),
    }
}
pub fn curve(r: &mut Rng, which: u64) -> Curve {
    match which {
        0 => Curve::Cp,
        1 => Curve::Price(price(r)),
        2 => Curve::Stable(match r.below(6) {
            0 => 1,
            1 => r.range(1, 10),
            2 => r.logpos(40),
            _ => r.logpos(14),
        }),
        _ => Curve::Offset(match r.below(4) {
            0 => r.range(1, 10),
            1 => r.logpos(64),
            _ => r.logpos(45),
        }),
    }
}
pub fn balances(r: &mut Rng, c: &Curve) -> (u64, u64) {
    let big = r.chance(1, 6);
    let bits = if big { 64 } else { 50 };
    let a = match r.below(12) {
        0 => r.range(1, 20),
        1 => r.amount().max(1),
        _ => r.logpos(bits),
    };
    let b = match r.below(10) {
        0 => r.range(1, 20),
        1 => r.amount(),
        2 | 3 => r.near(a),
        4 => a,
        5 => match c {
            Curve::Price(p) => r.near(a / p),
            _ => r.near(a),
        },
        6 => match c {
            Curve::Price(_) | Curve::Offset(_) => 0,
            _ => r.logpos(bits),
        },
        _ => r.logpos(bits),
    };
    match c {
        Curve::Price(_) | Curve::Offset(_) => {
            let a = if r.chance(1, 16) && b > 0 { 0 } else { a };
            (a, b)
        }
        _ => (a, b.max(1)),
    }
}
pub fn supply(r: &mut Rng, a: u64, b: u64) -> u64 {
    match r.below(10) {
        0 => r.range(1, 20),
        1 => r.logpos(64),
        2 => u64::MAX / 2,
        3 => r.near(a).max(1),
        4 | 5 => isqrt(w(a as u128) * w(b as u128)).low_u64().max(1),
        _ => INITIAL_SUPPLY,
    }
}

impl Pit {
    pub fn forge(r: &mut Rng, curve: Curve, fees: Fees, a: u64, b: u64, s: u64) -> Pit {
        let mut w = World::new();
        let (i, rest) = w.forge_pool(r, curve, fees, a, b, s, None);
        let p = w.pools[i].clone();
        Self::around(r, w, p, rest, s)
    }
    pub fn around(r: &mut Rng, mut w: World, p: Pool, rest: Pubkey, s: u64) -> Pit {
        let user = w.wallet(r);
        let fund = |r: &mut Rng, vault: u64| -> u64 {
            match r.below(8) {
                0 => r.range(0, u64::MAX - vault),
                1 => r.near(vault).min(u64::MAX - vault),
                _ => u64::MAX - vault,
            }
        };
        let (av, bv) = (amt(&w.l, &p.vault_a), amt(&w.l, &p.vault_b));
        let fa = fund(r, av);
        let fb = fund(r, bv);
        let ua = w.token(r, p.mint_a, user, fa);
        let ub = w.token(r, p.mint_b, user, fb);
        let up = w.token(r, p.pool_mint, user, 0);
        let host_owner = w.wallet(r);
        let host = w.token(r, p.pool_mint, host_owner, 0);
        // part of the supply is the user's, sometimes some of it sits in the fee account
        let share = match r.below(5) {
            0 => s,
            1 => 0,
            2 => r.range(0, s),
            3 => s / 2,
            _ => s - s / 10,
        };
        let feeshare = if r.chance(1, 2) { (s - share) / 3 } else { 0 };
        w.set_amount(&rest, s - share - feeshare);
        w.set_amount(&up, share);
        w.set_amount(&p.fee_acct, feeshare);
        // freshly cloned amounts keep the mint supply
        w.edit_mint(&p.pool_mint, |m| m.supply = s);
        Pit { w, p, user, ua, ub, up, host, rest }
    }
    /// a random fee-taking pool of one of the four kinds
    pub fn random(r: &mut Rng, which: u64) -> Pit {
        let c = curve(r, which);
        let fees = Fees::random(r);
        let (a, b) = balances(r, &c);
        let s = supply(r, a, b);
        Pit::forge(r, c, fees, a, b, s).cast(r)
    }
    /// other people in the same roles: the user is the fee account's owner, pays from or into accounts of
    /// others that are delegated to him, the host is one of the others (`cast`: and one of the tokens may be wrapped SOL)
    pub fn cast(mut self, r: &mut Rng) -> Pit {
        if r.chance(1, 6) {
            let i = self.w.pools.iter().position(|p| p.swap == self.p.swap).expect("pool of the world");
            let side = r.chance(1, 2);
            let k = self.user_tok(side);
            self.w.wrap_sol(i, side, &k);
            self.p = self.w.pools[i].clone();
        }
        self.people(r)
    }
    pub fn people(mut self, r: &mut Rng) -> Pit {
        self.w.l.all_writable = r.chance(1, 4);
        if r.chance(1, 2) {
            return self;
        }
        if r.chance(1, 3) {
            self.user = self.p.fee_owner;
            let u = self.user;
            for k in [self.ua, self.ub, self.up] {
                self.w.edit_tok(&k, |t| t.owner = u);
            }
        }
        let (u, fo, sw) = (self.user, self.p.fee_owner, self.p.swap);
        let other = self.w.wallet(r);
        for k in [self.ua, self.ub, self.up] {
            if r.chance(1, 3) {
                let owner = *r.pick(&[other, fo, sw]);
                let close = *r.pick(&[other, fo, u]);
                let closable = r.chance(1, 3);
                self.w.edit_tok(&k, |t| {
                    if owner != u {
                        t.owner = owner;
                        t.delegate = COption::Some(u);
                        t.delegated_amount = u64::MAX;
                    }
                    if closable {
                        t.close_authority = COption::Some(close);
                    }
                });
            }
        }
        if r.chance(1, 3) {
            let k = self.host;
            let (owner, x) = (*r.pick(&[u, fo, other, sw]), *r.pick(&[u, fo, other, sw]));
            let how = r.below(4);
            self.w.edit_tok(&k, |t| {
                t.owner = owner;
                match how {
                    0 => {
                        t.delegate = COption::Some(x);
                        t.delegated_amount = u64::MAX;
                    }
                    1 => t.close_authority = COption::Some(x),
                    _ => {}
                }
            });
        }
        if r.chance(1, 4) {
            let (k, close) = (self.p.fee_acct, *r.pick(&[u, other]));
            let delegated = r.chance(1, 2) && u != fo;
            self.w.edit_tok(&k, |t| {
                if delegated {
                    t.delegate = COption::Some(u);
                    t.delegated_amount = 1_000_000;
                } else {
                    t.close_authority = COption::Some(close);
                }
            });
        }
        self
    }
    pub fn st(&self) -> St {
        St { a: amt(&self.w.l, &self.p.vault_a), b: amt(&self.w.l, &self.p.vault_b), s: mint_of(&self.w.l, &self.p.pool_mint).supply }
    }
    pub fn user_tok(&self, a: bool) -> Pubkey {
        if a {
            self.ua
        } else {
            self.ub
        }
    }
    pub fn swap_ix(&self, a_in: bool, x: u64, min: u64) -> Ix {
        swap_ix(&self.p, self.user, self.user_tok(a_in), self.user_tok(!a_in), a_in, x, min)
    }
    pub fn swap(&mut self, a_in: bool, x: u64, min: u64) -> Record {
        let ix = self.swap_ix(a_in, x, min);
        self.w.l.exec(&ix)
    }
    /// the processor's own swap, which takes an optional host fee account
    pub fn swap_hosted(&mut self, a_in: bool, x: u64, min: u64) -> Record {
        let mut ix = self.swap_ix(a_in, x, min);
        ix.metas.push(Meta { key: self.host, signer: false, writable: true });
        self.w.l.exec_with(&ix, |pid, accts, _| token_bonding_curve::processor::Processor::process_swap(pid, x, min, accts))
    }
    pub fn deposit_all(&mut self, m: u64, ma: u64, mb: u64) -> Record {
        let ix = deposit_all_ix(&self.p, self.user, self.ua, self.ub, self.up, m, ma, mb);
        self.w.l.exec(&ix)
    }
    pub fn withdraw_all(&mut self, m: u64, na: u64, nb: u64, from_fee: bool) -> Record {
        let (auth, src) = if from_fee { (self.p.fee_owner, self.p.fee_acct) } else { (self.user, self.up) };
        let ix = withdraw_all_ix(&self.p, auth, src, self.ua, self.ub, m, na, nb);
        self.w.l.exec(&ix)
    }
    pub fn deposit_single(&mut self, a_in: bool, x: u64, min: u64) -> Record {
        let ix = deposit_single_ix(&self.p, self.user, self.user_tok(a_in), self.up, x, min);
        self.w.l.exec(&ix)
    }
    pub fn withdraw_single(&mut self, a_out: bool, x: u64, max: u64, from_fee: bool) -> Record {
        let (auth, src) = if from_fee { (self.p.fee_owner, self.p.fee_acct) } else { (self.user, self.up) };
        let ix = withdraw_single_ix(&self.p, auth, src, self.user_tok(a_out), x, max);
        self.w.l.exec(&ix)
    }
    pub fn desc(&self) -> String {
        let s = self.st();
        format!("{:?} fees {:?} A={} B={} supply={}", self.p.curve, self.p.fees, s.a, s.b, s.s)
    }
}

/// (trade fee, owner fee, rest), None if the fees exceed the input
pub fn split(x: u64, f: &Fees) -> Option<(u128, u128, u128)> {
    let t = fee(x as u128, f.trade);
    let o = fee(x as u128, f.owner);
    (x as u128).checked_sub(t + o).map(|n| (t, o, n))
}

/// exact rule of the trade: Some((input taken net of fees, output)), None = nothing to trade
/// (Err = no exact rule: stable)
pub fn exact_swap(c: &Curve, a_in: bool, net: u128, st: &St) -> Result<Option<(u128, u128)>, ()> {
    match *c {
        Curve::Price(p) => Ok(if a_in {
            let out = net / p as u128;
            if out == 0 {
                None
            } else {
                Some((out * p as u128, out))
            }
        } else {
            let out = w(net) * w(p as u128);
            if out.is_zero() {
                None
            } else {
                // beyond 128 bits nothing can pay it anyway
                Some((net, to_u128(out).unwrap_or(u128::MAX)))
            }
        }),
        Curve::Cp | Curve::Offset(_) => {
            let off = if let Curve::Offset(o) = *c { o as u128 } else { 0 };
            let (x, y) = if a_in { (st.a as u128, st.b as u128 + off) } else { (st.b as u128 + off, st.a as u128) };
            Ok(product_swap(net, x, y))
        }
        _ => Err(()),
    }
}
/// largest output keeping the product from falling, smallest input paying for it
pub fn product_swap(net: u128, x: u128, y: u128) -> Option<(u128, u128)> {
    if x + net == 0 {
        return None;
    }
    let inv = w(x) * w(y);
    let left = ceil_div(inv, w(x + net)).as_u128();
    if left >= y || left == 0 {
        return None;
    }
    let need = ceil_div(inv, w(left)).as_u128();
    Some((need - x, y - left))
}

// ------------------------------------------------------------ stable invariant, exact

/// D * 2^k, the real root of D^3/q + (n-1) D = n S with q the product term (floor, at most 2 units of 2^-k below)
pub fn stable_d(ann: u128, s: u128, q: U1024, k: u32) -> U1024 {
    if s == 0 {
        return U1024::zero();
    }
    // g(D) = D^3 + q (ann-1) 2^2k D - q ann s 2^3k, increasing and convex: Newton from above
    let lin = (q * w(ann - 1)) << (2 * k as usize);
    let c = (q * w(ann) * w(s)) << (3 * k as usize);
    let mut d = w(s) << k as usize;
    loop {
        let d2 = d * d;
        let g = d2 * d + lin * d;
        if g <= c {
            return d;
        }
        let step = (g - c) / (U1024::from(3u64) * d2 + lin);
        if step.is_zero() {
            // within one unit above the root
            let n = d - U1024::one();
            return n;
        }
        d = d - step;
    }
}
pub const DK: u32 = 40;
/// invariant of the code's own equation (balances doubled plus one in the product)
pub fn stable_d_of(amp: u64, a: u64, b: u64) -> U1024 {
    let q = (w(a as u128) * w(2) + U1024::one()) * (w(b as u128) * w(2) + U1024::one());
    stable_d(amp as u128 * 2, a as u128 + b as u128, q, DK)
}
/// textbook invariant
pub fn stable_d_plain(amp: u64, a: u64, b: u64) -> U1024 {
    let q = w(a as u128) * w(b as u128) * w(4);
    stable_d(amp as u128 * 2, a as u128 + b as u128, q, DK)
}
/// y * 2^DK with y^2 + (x + D/n - D) y = D^3/(4 x n), for D given in 2^-DK units (ceil within a few units)
pub fn stable_y(amp: u64, x: u128, d: U1024) -> Option<U1024> {
    if x == 0 {
        return None;
    }
    let n = w(amp as u128 * 2);
    let k = DK as usize;
    // everything in units of 2^-DK: Y^2 + (X + D/n - D) Y = D^3 / (4 x n 2^DK) * ... (x integer)
    // multiply by n: n Y^2 + (n X + D - n D) Y = D^3/(4x) / 2^k
    let c = ((d * d * d) / (w(x) * w(4))) >> k;
    let pos = n * (w(x) << k) + d;
    let neg = n * d;
    // g(Y) = n Y^2 + pos Y - neg Y - c ; start above the root and go down
    let mut y = d.max(U1024::one());
    // make sure we start above
    let mut guard = 0;
    while n * y * y + pos * y < neg * y + c {
        y = y << 1;
        guard += 1;
        if guard > 200 {
            return None;
        }
    }
    loop {
        let g = (n * y * y + pos * y) - (neg * y + c);
        let den = (n * y * w(2) + pos).checked_sub(neg)?;
        if den.is_zero() {
            return Some(y);
        }
        let step = g / den;
        if step.is_zero() {
            return Some(y);
        }
        if step >= y {
            return Some(U1024::zero());
        }
        y = y - step;
        if n * y * y + pos * y < neg * y + c {
            return Some(y + U1024::one());
        }
    }
}

// ------------------------------------------------------------ single-sided formulas
/// bounds of supply*(sqrt((x+v)/v)-1), scaled by 2^64
pub fn cp_mint(s: u64, v: u128, x: u128) -> U1024 {
    // S*sqrt((v+x)/v) = sqrt(S^2 (v+x) 2^128 / v)
    let q = ((w(s as u128) * w(s as u128) * w(v + x)) << 128) / w(v);
    isqrt(q) - (w(s as u128) << 64).min(isqrt(q))
}
/// supply*(1-sqrt((v-x)/v)) scaled by 2^64, rounded up by at most a few units
pub fn cp_burn(s: u64, v: u128, x: u128) -> U1024 {
    let q = ((w(s as u128) * w(s as u128) * w(v - x)) << 128) / w(v);
    (w(s as u128) << 64) - isqrt(q)
}

/// how far the whole-number solver may be from the exact invariant, in units of 2^-DK of D: rounding
/// the product term down, by up to one unit before the second division, moves the root up (the program
/// calls it with the balances in either order)
pub fn d_err(amp: u64, a: u64, b: u64) -> Option<U1024> {
    if a == 0 || b == 0 || a.max(b) / a.min(b) > 1 << 20 {
        // beyond, the solver's 32 steps do not reach the root
        return None;
    }
    Some(d_err_at(amp, a as u128, b as u128, stable_d_of(amp, a, b)))
}
pub fn d_err_at(amp: u64, a: u128, b: u128, d: U1024) -> U1024 {
    let d = f(d) / 2f64.powi(DK as i32);
    let (af, bf) = (a as f64, b as f64);
    let q = (2.0 * af + 1.0) * (2.0 * bf + 1.0);
    let delta = (1.0 + d / (2.0 * af.min(bf) + 1.0)) / ((2.0 * amp as f64 - 1.0) + 3.0 * d * d / q);
    // one below for the whole number, a little for the last step
    U1024::from(((1.25 + delta * 1.01) * 1024.0) as u128) << (DK as usize - 10)
}
