//! Pools, mints, users and instruction builders on top of the mini runtime.
use crate::big::*;
use crate::rng::Rng;
use crate::svm::*;
use sha2::{Digest, Sha256};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::{Account as TokenAccount, AccountState, Mint};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub const INITIAL_SUPPLY: u64 = 1_000_000_000;
pub const STATE_LEN: usize = 324;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Curve {
    Cp,
    Price(u64),
    Stable(u64),
    Offset(u64),
    Linear { sn: u64, sd: u64, pn: u64, pd: u64 },
}
impl Curve {
    pub fn type_byte(&self) -> u8 {
        match self {
            Curve::Cp => 0,
            Curve::Price(_) => 1,
            Curve::Stable(_) => 2,
            Curve::Offset(_) => 3,
            Curve::Linear { .. } => 30,
        }
    }
    pub fn params(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        match *self {
            Curve::Cp => {}
            Curve::Price(x) | Curve::Stable(x) | Curve::Offset(x) => p[..8].copy_from_slice(&x.to_le_bytes()),
            Curve::Linear { sn, sd, pn, pd } => {
                p[..8].copy_from_slice(&sn.to_le_bytes());
                p[8..16].copy_from_slice(&sd.to_le_bytes());
                p[16..24].copy_from_slice(&pn.to_le_bytes());
                p[24..].copy_from_slice(&pd.to_le_bytes());
            }
        }
        p
    }
    pub fn is_linear(&self) -> bool {
        matches!(self, Curve::Linear { .. })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Curve::Cp => "constant_product",
            Curve::Price(_) => "constant_price",
            Curve::Stable(_) => "stable",
            Curve::Offset(_) => "offset",
            Curve::Linear { .. } => "linear",
        }
    }
}

/// trade, owner trade, owner withdraw, host: (numerator, denominator)
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Fees {
    pub trade: (u64, u64),
    pub owner: (u64, u64),
    pub withdraw: (u64, u64),
    pub host: (u64, u64),
}
impl Fees {
    pub fn bytes(&self) -> [u8; 64] {
        let mut b = [0u8; 64];
        for (i, v) in [
            self.trade.0,
            self.trade.1,
            self.owner.0,
            self.owner.1,
            self.withdraw.0,
            self.withdraw.1,
            self.host.0,
            self.host.1,
        ]
        .iter()
        .enumerate()
        {
            b[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes());
        }
        b
    }
    pub fn linear() -> Self {
        Fees { trade: (0, 1), owner: (0, 1), withdraw: (0, 1), host: (0, 1) }
    }
    pub fn lib(&self) -> token_bonding_curve::curve::fees::Fees {
        token_bonding_curve::curve::fees::Fees {
            trade_fee_numerator: self.trade.0,
            trade_fee_denominator: self.trade.1,
            owner_trade_fee_numerator: self.owner.0,
            owner_trade_fee_denominator: self.owner.1,
            owner_withdraw_fee_numerator: self.withdraw.0,
            owner_withdraw_fee_denominator: self.withdraw.1,
            host_fee_numerator: self.host.0,
            host_fee_denominator: self.host.1,
        }
    }
    /// a random proper fee set
    pub fn random(r: &mut Rng) -> Self {
        fn fr(r: &mut Rng) -> (u64, u64) {
            match r.below(8) {
                0 => (0, 0),
                1 => (0, r.logpos(64)),
                2 => *r.pick(&[(25, 10000), (5, 10000), (1, 100), (1, 1000), (20, 100), (1, 6), (1, 3), (1, 2)]),
                3 => {
                    let d = r.range(2, 20);
                    (r.range(1, d - 1), d)
                }
                4 => {
                    let d = r.logpos(64).max(2);
                    (r.range(1, d - 1), d)
                }
                5 => {
                    let d = r.logpos(20).max(2);
                    (1, d)
                }
                6 => {
                    let d = r.logpos(63).max(2);
                    (d - 1, d)
                }
                _ => {
                    let d = 10000;
                    (r.range(1, 300), d)
                }
            }
        }
        if r.chance(1, 8) {
            return Fees::linear();
        }
        Fees { trade: fr(r), owner: fr(r), withdraw: fr(r), host: fr(r) }
    }
    pub fn small(r: &mut Rng) -> Self {
        fn fr(r: &mut Rng) -> (u64, u64) {
            match r.below(4) {
                0 => (0, 0),
                1 => (0, 1),
                _ => (r.range(1, 100), 10000),
            }
        }
        Fees { trade: fr(r), owner: fr(r), withdraw: fr(r), host: (r.range(0, 99), 100) }
    }
}
/// floor fee, at least one when rate and amount are non-zero
pub fn fee(amount: u128, f: (u64, u64)) -> u128 {
    if f.0 == 0 || amount == 0 {
        return 0;
    }
    let x = (w(amount) * w(f.0 as u128) / w(f.1 as u128)).as_u128();
    x.max(1)
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub swap: Pubkey,
    pub authority: Pubkey,
    pub bump: u8,
    pub mint_a: Pubkey,
    pub mint_b: Pubkey,
    pub vault_a: Pubkey,
    pub vault_b: Pubkey,
    pub pool_mint: Pubkey,
    pub fee_acct: Pubkey,
    pub fee_owner: Pubkey,
    pub curve: Curve,
    pub fees: Fees,
}
impl Pool {
    pub fn state_bytes(&self) -> Vec<u8> {
        let mut d = Vec::with_capacity(STATE_LEN);
        d.push(1);
        d.push(1);
        d.push(self.bump);
        d.extend_from_slice(token_program().as_ref());
        for k in [&self.vault_a, &self.vault_b, &self.pool_mint, &self.mint_a, &self.mint_b, &self.fee_acct] {
            d.extend_from_slice(k.as_ref());
        }
        d.extend_from_slice(&self.fees.bytes());
        d.push(self.curve.type_byte());
        d.extend_from_slice(&self.curve.params());
        d
    }
    pub fn vault(&self, a: bool) -> Pubkey {
        if a {
            self.vault_a
        } else {
            self.vault_b
        }
    }
    pub fn mint(&self, a: bool) -> Pubkey {
        if a {
            self.mint_a
        } else {
            self.mint_b
        }
    }
}

pub fn pid() -> Pubkey {
    token_bonding_curve::id()
}




static DISC: Mutex<Option<HashMap<&'static str, [u8; 8]>>> = Mutex::new(None);

/// sha256("global:<name>")[..8]
pub fn disc(name: &'static str) -> [u8; 8] {
    let mut g = DISC.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    *m.entry(name).or_insert_with(|| {
        let h = Sha256::digest(format!("global:{}", name).as_bytes());
        let mut d = [0u8; 8];
        d.copy_from_slice(&h[..8]);
        d
    })
}
pub fn ixdata(name: &'static str, args: &[u64]) -> Vec<u8> {
    let mut d = disc(name).to_vec();
    for a in args {
        d.extend_from_slice(&a.to_le_bytes());
    }
    d
}
fn m(key: Pubkey, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Swap,
    DepositAll,
    WithdrawAll,
    DepositSingle,
    WithdrawSingle,
}
pub const OPS: [Op; 5] = [Op::Swap, Op::DepositAll, Op::WithdrawAll, Op::DepositSingle, Op::WithdrawSingle];

#[derive(Clone)]
pub struct World {
    pub l: Ledger,
    pub pools: Vec<Pool>,
}

pub fn tok(l: &Ledger, k: &Pubkey) -> TokenAccount {
    TokenAccount::unpack(&l.get(k).data).expect("harness: token account")
}
pub fn amt(l: &Ledger, k: &Pubkey) -> u64 {
    tok(l, k).amount
}
pub fn mint_of(l: &Ledger, k: &Pubkey) -> Mint {
    Mint::unpack(&l.get(k).data).expect("harness: mint")
}
pub fn tok_acc(a: &Account) -> Option<TokenAccount> {
    if a.owner != token_program() || a.data.len() != TokenAccount::LEN {
        return None;
    }
    TokenAccount::unpack(&a.data).ok()
}
pub fn mint_acc(a: &Account) -> Option<Mint> {
    if a.owner != token_program() || a.data.len() != Mint::LEN {
        return None;
    }
    Mint::unpack(&a.data).ok()
}

impl World {
    pub fn new() -> Self {
        World { l: Ledger::new(), pools: vec![] }
    }
    pub fn key(&self, r: &mut Rng) -> Pubkey {
        Pubkey::new_from_array(r.bytes32())
    }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) {
        self.l.accts.insert(k, Account { lamports: 1_000_000_000, data, owner, executable: false });
    }
    pub fn wallet(&mut self, r: &mut Rng) -> Pubkey {
        let k = self.key(r);
        self.put(k, solana_program::system_program::id(), vec![]);
        k
    }
    pub fn put_mint(&mut self, k: Pubkey, m: Mint) {
        let mut d = vec![0u8; Mint::LEN];
        Mint::pack(m, &mut d).unwrap();
        self.put(k, token_program(), d);
    }
    pub fn put_tok(&mut self, k: Pubkey, t: TokenAccount) {
        let mut d = vec![0u8; TokenAccount::LEN];
        TokenAccount::pack(t, &mut d).unwrap();
        self.put(k, token_program(), d);
        if let COption::Some(rent) = t.is_native {
            self.l.accts.get_mut(&k).unwrap().lamports = rent.saturating_add(t.amount);
        }
    }
    /// the wrapped-SOL mint
    pub fn native_mint(&mut self) -> Pubkey {
        let k = spl_token::native_mint::id();
        self.put_mint(k, Mint { mint_authority: COption::None, supply: 0, decimals: 9, is_initialized: true, freeze_authority: COption::None });
        k
    }
    pub fn mint(&mut self, r: &mut Rng, auth: Option<Pubkey>) -> Pubkey {
        let k = self.key(r);
        let d = *r.pick(&[0u8, 2, 6, 8, 9, 18]);
        self.put_mint(
            k,
            Mint {
                mint_authority: auth.map(COption::Some).unwrap_or(COption::None),
                supply: 0,
                decimals: d,
                is_initialized: true,
                freeze_authority: COption::None,
            },
        );
        k
    }
    pub fn blank(mint: Pubkey, owner: Pubkey) -> TokenAccount {
        TokenAccount {
            mint,
            owner,
            amount: 0,
            delegate: COption::None,
            state: AccountState::Initialized,
            is_native: COption::None,
            delegated_amount: 0,
            close_authority: COption::None,
        }
    }
    /// new token account holding `amount`, created out of thin air (mint supply follows where it fits)
    pub fn token(&mut self, r: &mut Rng, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.key(r);
        let mut t = Self::blank(mint, owner);
        t.amount = amount;
        if mint == spl_token::native_mint::id() {
            t.is_native = COption::Some(2_039_280);
        }
        self.put_tok(k, t);
        if amount > 0 && t.is_native.is_none() {
            self.bump_supply(&mint, amount);
        }
        k
    }
    fn bump_supply(&mut self, mint: &Pubkey, amount: u64) {
        if let Some(a) = self.l.accts.get(mint) {
            if let Some(mut mm) = mint_acc(a) {
                mm.supply = mm.supply.saturating_add(amount);
                self.put_mint(*mint, mm);
            }
        }
    }
    pub fn set_amount(&mut self, k: &Pubkey, amount: u64) {
        self.edit_tok(k, |t| t.amount = amount);
    }
    /// (an account already made into something else is left alone)
    pub fn edit_tok(&mut self, k: &Pubkey, f: impl FnOnce(&mut TokenAccount)) {
        let mut t = match tok_acc(self.l.get(k)) {
            Some(t) => t,
            None => return,
        };
        f(&mut t);
        self.put_tok(*k, t);
    }
    pub fn edit_any(&mut self, k: &Pubkey, f: impl FnOnce(&mut Vec<u8>)) {
        f(&mut self.l.accts.get_mut(k).unwrap().data);
    }
    pub fn edit_mint(&mut self, k: &Pubkey, f: impl FnOnce(&mut Mint)) {
        let mut t = match mint_acc(self.l.get(k)) {
            Some(t) => t,
            None => return,
        };
        f(&mut t);
        self.put_mint(*k, t);
    }

    /// Accounts of a pool about to be created (nothing initialized yet).
    pub fn prepare_pool(&mut self, r: &mut Rng, curve: Curve, fees: Fees, a: u64, b: u64, mints: Option<(Pubkey, Pubkey)>) -> (Pool, Pubkey) {
        let swap = self.key(r);
        let (authority, bump) = Pubkey::find_program_address(&[swap.as_ref()], &pid());
        self.l.accts.insert(
            swap,
            Account { lamports: 1_000_000_000, data: vec![0u8; STATE_LEN], owner: pid(), executable: false },
        );
        if !self.l.accts.contains_key(&authority) {
            self.put(authority, solana_program::system_program::id(), vec![]);
        }
        let (mint_a, mint_b) = match mints {
            Some(x) => x,
            None => (self.mint(r, None), self.mint(r, None)),
        };
        let vault_a = self.token(r, mint_a, authority, a);
        let vault_b = self.token(r, mint_b, authority, b);
        let pool_mint = self.mint(r, Some(authority));
        let fee_owner = self.wallet(r);
        let fee_acct = self.token(r, pool_mint, fee_owner, 0);
        let creator = self.wallet(r);
        let dest = self.token(r, pool_mint, creator, 0);
        let p = Pool { swap, authority, bump, mint_a, mint_b, vault_a, vault_b, pool_mint, fee_acct, fee_owner, curve, fees };
        (p, dest)
    }
    /// `prepare_pool`, sometimes with wrapped SOL as one of the tokens
    pub fn prepare_pool_any(&mut self, r: &mut Rng, curve: Curve, fees: Fees, a: u64, b: u64) -> (Pool, Pubkey) {
        let mints = match r.below(8) {
            0 => Some((self.native_mint(), self.mint(r, None))),
            1 => Some((self.mint(r, None), self.native_mint())),
            _ => None,
        };
        self.prepare_pool(r, curve, fees, a, b, mints)
    }
    /// Circumstances that make no difference to whether a pool may be created.
    pub fn adorn(&mut self, r: &mut Rng, p: &Pool, dest: &Pubkey) {
        self.l.all_writable = r.chance(1, 4);
        let x = self.wallet(r);
        for k in [p.fee_acct, *dest] {
            let who = *r.pick(&[x, p.fee_owner, p.authority, p.swap]);
            match r.below(8) {
                0 => self.edit_tok(&k, |t| t.close_authority = COption::Some(who)),
                1 => {
                    let n = r.amount();
                    self.edit_tok(&k, |t| {
                        t.delegate = COption::Some(who);
                        t.delegated_amount = n;
                    })
                }
                2 if k == p.fee_acct => self.edit_tok(&k, |t| t.state = spl_token::state::AccountState::Frozen),
                _ => {}
            }
        }
        for k in [p.vault_a, p.vault_b] {
            if r.chance(1, 16) {
                self.edit_tok(&k, |t| t.state = spl_token::state::AccountState::Frozen);
            }
        }
        if r.chance(1, 4) {
            let n = r.below(256) as u8;
            for k in [p.pool_mint, p.mint_a] {
                self.edit_mint(&k, |m| m.decimals = n);
            }
        }
    }
    /// A pool put into the ledger directly in an arbitrary (possibly long-lived) state.
    /// Returns (pool index, account holding the whole pool token supply).
    pub fn forge_pool(&mut self, r: &mut Rng, curve: Curve, fees: Fees, a: u64, b: u64, supply: u64, mints: Option<(Pubkey, Pubkey)>) -> (usize, Pubkey) {
        let (p, dest) = self.prepare_pool(r, curve, fees, a, b, mints);
        self.l.accts.get_mut(&p.swap).unwrap().data = p.state_bytes();
        self.set_amount(&dest, supply);
        self.edit_mint(&p.pool_mint, |m| m.supply = supply);
        self.pools.push(p);
        (self.pools.len() - 1, dest)
    }
    /// Makes one of the pool's tokens wrapped SOL: its vault and one user account follow. Lamports have to fit
    /// into 64 bits together with the rent reserves, so the user gives up a little of an enormous holding.
    pub fn wrap_sol(&mut self, i: usize, a: bool, user: &Pubkey) {
        const ROOM: u64 = 1 << 24;
        let vault = self.pools[i].vault(a);
        let v = amt(&self.l, &vault);
        if v > u64::MAX - ROOM {
            return;
        }
        let m = self.native_mint();
        for (k, most) in [(vault, v), (*user, u64::MAX - ROOM - v)] {
            self.edit_tok(&k, |t| {
                t.mint = m;
                t.amount = t.amount.min(most);
                t.is_native = COption::Some(2_039_280);
            });
        }
        let p = &mut self.pools[i];
        if a {
            p.mint_a = m;
        } else {
            p.mint_b = m;
        }
        let (k, d) = (p.swap, p.state_bytes());
        self.l.accts.get_mut(&k).unwrap().data = d;
    }
    /// A pool created by the program's own initialize instruction. Panics (harness) if refused.
    pub fn init_pool(&mut self, r: &mut Rng, curve: Curve, fees: Fees, a: u64, b: u64) -> (usize, Pubkey, Record) {
        let (p, dest) = self.prepare_pool(r, curve, fees, a, b, None);
        let ix = init_ix(&p, dest);
        let rec = self.l.exec(&ix);
        self.pools.push(p);
        (self.pools.len() - 1, dest, rec)
    }
}

pub fn init_metas(p: &Pool, dest: Pubkey) -> Vec<Meta> {
    vec![
        m(p.swap, true, true),
        m(p.authority, false, false),
        m(p.vault_a, false, false),
        m(p.vault_b, false, false),
        m(p.pool_mint, false, true),
        m(p.fee_acct, false, false),
        m(dest, false, true),
        m(token_program(), false, false),
    ]
}
pub fn init_data(p: &Pool) -> Vec<u8> {
    match p.curve {
        Curve::Linear { sn, sd, pn, pd } => ixdata("initialize_linear_price", &[sn, sd, pn, pd]),
        Curve::Price(x) => {
            let f = p.fees;
            ixdata(
                "initialize_constant_price",
                &[f.trade.0, f.trade.1, f.owner.0, f.owner.1, f.withdraw.0, f.withdraw.1, f.host.0, f.host.1, x],
            )
        }
        _ => panic!("harness: no creation instruction for this curve"),
    }
}
pub fn init_ix(p: &Pool, dest: Pubkey) -> Ix {
    Ix { program: pid(), metas: init_metas(p, dest), data: init_data(p) }
}

/// swap: from `src` into vault of side `a_in`, out to `dst`
pub fn swap_ix(p: &Pool, auth: Pubkey, src: Pubkey, dst: Pubkey, a_in: bool, amount: u64, min: u64) -> Ix {
    Ix {
        program: pid(),
        metas: vec![
            m(p.swap, false, false),
            m(p.authority, false, false),
            m(auth, true, false),
            m(src, false, true),
            m(p.vault(a_in), false, true),
            m(p.vault(!a_in), false, true),
            m(dst, false, true),
            m(p.pool_mint, false, true),
            m(p.fee_acct, false, true),
            m(token_program(), false, false),
        ],
        data: ixdata("swap", &[amount, min]),
    }
}
pub fn deposit_all_ix(p: &Pool, auth: Pubkey, src_a: Pubkey, src_b: Pubkey, dst: Pubkey, pool_amt: u64, max_a: u64, max_b: u64) -> Ix {
    Ix {
        program: pid(),
        metas: vec![
            m(p.swap, false, false),
            m(p.authority, false, false),
            m(auth, true, false),
            m(src_a, false, true),
            m(src_b, false, true),
            m(p.vault_a, false, true),
            m(p.vault_b, false, true),
            m(p.pool_mint, false, true),
            m(dst, false, true),
            m(token_program(), false, false),
        ],
        data: ixdata("deposit_all_token_types", &[pool_amt, max_a, max_b]),
    }
}
pub fn withdraw_all_ix(p: &Pool, auth: Pubkey, src: Pubkey, dst_a: Pubkey, dst_b: Pubkey, pool_amt: u64, min_a: u64, min_b: u64) -> Ix {
    Ix {
        program: pid(),
        metas: vec![
            m(p.swap, false, false),
            m(p.authority, false, false),
            m(auth, true, false),
            m(p.pool_mint, false, true),
            m(src, false, true),
            m(p.vault_a, false, true),
            m(p.vault_b, false, true),
            m(dst_a, false, true),
            m(dst_b, false, true),
            m(p.fee_acct, false, true),
            m(token_program(), false, false),
        ],
        data: ixdata("withdraw_all_token_types", &[pool_amt, min_a, min_b]),
    }
}
pub fn deposit_single_ix(p: &Pool, auth: Pubkey, src: Pubkey, dst: Pubkey, amount: u64, min_pool: u64) -> Ix {
    Ix {
        program: pid(),
        metas: vec![
            m(p.swap, false, false),
            m(p.authority, false, false),
            m(auth, true, false),
            m(src, false, true),
            m(p.vault_a, false, true),
            m(p.vault_b, false, true),
            m(p.pool_mint, false, true),
            m(dst, false, true),
            m(token_program(), false, false),
        ],
        data: ixdata("deposit_single_token_type_exact_amount_in", &[amount, min_pool]),
    }
}
pub fn withdraw_single_ix(p: &Pool, auth: Pubkey, src: Pubkey, dst: Pubkey, amount: u64, max_pool: u64) -> Ix {
    Ix {
        program: pid(),
        metas: vec![
            m(p.swap, false, false),
            m(p.authority, false, false),
            m(auth, true, false),
            m(p.pool_mint, false, true),
            m(src, false, true),
            m(p.vault_a, false, true),
            m(p.vault_b, false, true),
            m(dst, false, true),
            m(p.fee_acct, false, true),
            m(token_program(), false, false),
        ],
        data: ixdata("withdraw_single_token_type_exact_amount_out", &[amount, max_pool]),
    }
}

/// signed balance change of a token account in a record (0 if absent)
pub fn delta(rec: &Record, k: &Pubkey) -> i128 {
    let g = |m: &BTreeMap<Pubkey, Account>| m.get(k).and_then(tok_acc).map(|t| t.amount as i128).unwrap_or(0);
    g(&rec.post) - g(&rec.pre)
}
pub fn supply_delta(rec: &Record, k: &Pubkey) -> i128 {
    let g = |m: &BTreeMap<Pubkey, Account>| m.get(k).and_then(mint_acc).map(|t| t.supply as i128).unwrap_or(0);
    g(&rec.post) - g(&rec.pre)
}
