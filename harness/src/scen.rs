//! Several pools sharing mints and users, honest instructions on them, and the role table of every instruction.
use crate::lin;
use crate::pools::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct User {
    pub key: Pubkey,
    pub tok: BTreeMap<Pubkey, Pubkey>,
}
#[derive(Clone)]
pub struct Scen {
    pub w: World,
    pub users: Vec<User>,
}

/// positions of the roles in an instruction's account list
pub struct Roles {
    pub vaults: (usize, usize),
    pub mint: usize,
    pub fee: Option<usize>,
    pub tp: usize,
    /// user-side accounts the instruction may take tokens from
    pub src: &'static [usize],
    /// user-side accounts it pays to
    pub dst: &'static [usize],
}
pub fn roles(op: Op) -> Roles {
    match op {
        Op::Swap => Roles { vaults: (4, 5), mint: 7, fee: Some(8), tp: 9, src: &[3], dst: &[6] },
        Op::DepositAll => Roles { vaults: (5, 6), mint: 7, fee: None, tp: 9, src: &[3, 4], dst: &[8] },
        Op::WithdrawAll => Roles { vaults: (5, 6), mint: 3, fee: Some(9), tp: 10, src: &[4], dst: &[7, 8] },
        Op::DepositSingle => Roles { vaults: (4, 5), mint: 6, fee: None, tp: 8, src: &[3], dst: &[7] },
        Op::WithdrawSingle => Roles { vaults: (5, 6), mint: 3, fee: Some(8), tp: 9, src: &[4], dst: &[7] },
    }
}

/// pool state read straight from the bytes
#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub version: u8,
    pub init: u8,
    pub bump: u8,
    pub tp: Pubkey,
    pub vault_a: Pubkey,
    pub vault_b: Pubkey,
    pub mint: Pubkey,
    pub mint_a: Pubkey,
    pub mint_b: Pubkey,
    pub fee: Pubkey,
    pub fees: [u64; 8],
    pub ctype: u8,
    pub params: [u8; 32],
}
pub fn raw_state(d: &[u8]) -> Option<Raw> {
    if d.len() != STATE_LEN {
        return None;
    }
    let k = |i: usize| {
        let mut b = [0u8; 32];
        b.copy_from_slice(&d[3 + 32 * i..35 + 32 * i]);
        Pubkey::new_from_array(b)
    };
    let mut fees = [0u64; 8];
    for (i, f) in fees.iter_mut().enumerate() {
        let mut b = [0u8; 8];
        b.copy_from_slice(&d[227 + 8 * i..235 + 8 * i]);
        *f = u64::from_le_bytes(b);
    }
    let mut params = [0u8; 32];
    params.copy_from_slice(&d[292..324]);
    Some(Raw { version: d[0], init: d[1], bump: d[2], tp: k(0), vault_a: k(1), vault_b: k(2), mint: k(3), mint_a: k(4), mint_b: k(5), fee: k(6), fees, ctype: d[291], params })
}
pub fn is_pool(a: &Account) -> Option<Raw> {
    if a.owner != pid() {
        return None;
    }
    let s = raw_state(&a.data)?;
    if s.version == 1 && s.init == 1 && matches!(s.ctype, 0..=3 | 30) {
        Some(s)
    } else {
        None
    }
}

/// some pool curve with moderate parameters
pub fn mild_curve(r: &mut Rng) -> (Curve, u64, u64) {
    let bits = 44;
    match r.below(6) {
        0 => (Curve::Cp, r.range(1000, 1 << bits), r.range(1000, 1 << bits)),
        1 | 2 => {
            let p = r.logpos(10);
            let a = r.logpos(bits).max(2000);
            (Curve::Price(p), a, r.near(a / p).max(if r.chance(1, 6) { 0 } else { 1000 }))
        }
        3 => {
            let a = r.logpos(bits).max(1000);
            (Curve::Stable(r.logpos(10)), a, r.near(a).max(1000))
        }
        4 => (Curve::Offset(r.logpos(bits)), r.range(1000, 1 << bits), r.range(0, 1 << bits)),
        _ => {
            let l = loop {
                let l = lin::params(r);
                if l.slope() < 1e4 && l.p0() < 1e6 {
                    break l;
                }
            };
            // a position on the line the vault can pay for
            let b = r.logpos(24);
            let a = crate::big::to_u128(l.f_ceil(b as u128)).unwrap_or(u128::MAX).min(1 << 60) as u64;
            (l.curve(), a, r.logpos(bits).max(100))
        }
    }
}

impl Scen {
    /// `n` pools over a few shared mints, two users holding everything
    pub fn new(r: &mut Rng, n: usize, zero_fees: bool) -> Scen {
        let mut w = World::new();
        w.l.all_writable = r.chance(1, 4);
        let first = if r.chance(1, 6) { w.native_mint() } else { w.mint(r, None) };
        let mints = [first, w.mint(r, None), w.mint(r, None)];
        let mut users = vec![];
        for _ in 0..2 {
            let key = w.wallet(r);
            let mut tok = BTreeMap::new();
            for m in mints {
                let t = w.token(r, m, key, 1 << 61);
                tok.insert(m, t);
            }
            users.push(User { key, tok });
        }
        for i in 0..n {
            let pair = if i == 0 || r.chance(2, 3) {
                if i > 0 && r.chance(1, 3) {
                    (mints[1], mints[0])
                } else {
                    (mints[0], mints[1])
                }
            } else {
                (mints[1], mints[2])
            };
            let (c, a, b) = mild_curve(r);
            let fees = if c.is_linear() {
                Fees::linear()
            } else if zero_fees {
                if r.chance(1, 2) {
                    Fees::default()
                } else {
                    Fees::linear()
                }
            } else {
                Fees::small(r)
            };
            let s = if r.chance(1, 3) { r.range(1000, 1 << 40) } else { INITIAL_SUPPLY };
            let (pi, rest) = w.forge_pool(r, c, fees, a, b, s, Some(pair));
            let pm = w.pools[pi].pool_mint;
            let fee = w.pools[pi].fee_acct;
            let mut left = s;
            for u in users.iter_mut() {
                let x = s / 3;
                left -= x;
                let t = w.token(r, pm, u.key, 0);
                w.set_amount(&t, x);
                u.tok.insert(pm, t);
            }
            let x = if r.chance(1, 2) { left / 2 } else { 0 };
            w.set_amount(&fee, x);
            w.set_amount(&rest, left - x);
            w.edit_mint(&pm, |m| m.supply = s);
        }
        Scen { w, users }
    }
    pub fn st(&self, pi: usize) -> St {
        let p = &self.w.pools[pi];
        St { a: amt(&self.w.l, &p.vault_a), b: amt(&self.w.l, &p.vault_b), s: mint_of(&self.w.l, &p.pool_mint).supply }
    }
    /// an instruction with loose limits that an ordinary user might send
    pub fn honest(&self, r: &mut Rng, pi: usize, op: Op, ui: usize) -> Ix {
        let p = &self.w.pools[pi];
        let u = &self.users[ui];
        let st = self.st(pi);
        let (ta, tb, tp) = (u.tok[&p.mint_a], u.tok[&p.mint_b], u.tok[&p.pool_mint]);
        let side = r.chance(1, 2);
        let (x, y) = if side { (st.a, st.b) } else { (st.b, st.a) };
        let (sx, sy) = if side { (ta, tb) } else { (tb, ta) };
        let share = |r: &mut Rng, v: u64| match r.below(5) {
            0 => r.range(1, v.max(1)),
            1 => v / 3 + 1,
            2 => v / 100 + 1,
            3 => r.logpos(40),
            _ => r.range(1, v / 10 + 10),
        };
        match op {
            Op::Swap => {
                let amount = match p.curve {
                    Curve::Price(pr) if side => share(r, st.b).saturating_mul(pr),
                    Curve::Price(pr) => share(r, st.a / pr),
                    Curve::Linear { .. } => {
                        if side {
                            r.logpos(50)
                        } else {
                            r.logpos(24)
                        }
                    }
                    _ => share(r, x),
                };
                swap_ix(p, u.key, sx, sy, side, amount.min(1 << 60), 0)
            }
            Op::DepositAll => deposit_all_ix(p, u.key, ta, tb, tp, share(r, st.s), u64::MAX, u64::MAX),
            Op::WithdrawAll => withdraw_all_ix(p, u.key, tp, ta, tb, share(r, st.s).min(st.s / 3), 0, 0),
            Op::DepositSingle => deposit_single_ix(p, u.key, sx, tp, share(r, x), 0),
            Op::WithdrawSingle => {
                let _ = y;
                withdraw_single_ix(p, u.key, tp, sx, share(r, x) / 4 + 1, u64::MAX)
            }
        }
    }
}

pub fn op_of(r: &mut Rng) -> Op {
    *r.pick(&OPS)
}
