//! C01-C04: whose tokens move, on whose word, within which limits, and nothing else.
use crate::check;
use crate::report::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use solana_program::program_option::COption;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

const ASSUME: &[&str] = &[
    "instructions run through the program's entry point on an in-process ledger with the real token program code and the runtime's privilege, ownership and rollback rules; native build of the same sources",
    "pools are put into the ledger in mid-life states as state bytes; account look-alikes are everything an outsider could create (token accounts owned by anybody, mints with any authority, program-owned accounts in uninitialized states, accounts of other programs with any bytes)",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "an instruction that succeeds as sent by an honest user, sent again with one or two of its accounts replaced, and judged by the pool's stored configuration; distinct (instruction, curve, replaced roles, kind of replacement, state)", quick: 50_000, thorough: 1_600_000, need: &["replaced and refused", "swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "role pool", "role authority", "role vault", "role mint", "role fee", "role token program", "role user", "counterfeit pools", "empty vaults", "other pools compared"], assumptions: ASSUME, case: c01 },
        Prop { id: "C02", rule: "an instruction with a chosen arrangement of owners, delegates, allowances and signers on the accounts it takes from, judged by whether every loss was covered by a signature; distinct (instruction, arrangement, state)", quick: 100_000, thorough: 2_000_000, need: &["moved by owner", "moved by delegate", "refused", "whole allowance used", "owned by the pool authority", "delegated to the pool authority", "authority unsigned", "allowance too small", "other pool's vault as source"], assumptions: ASSUME, case: c02 },
        Prop { id: "C03", rule: "an instruction executed with limits exactly met, one off and random, compared with what it does without limits; distinct (instruction, curve, state, amount, limit)", quick: 40_000, thorough: 1_200_000, need: &["exactly met limit accepted", "limit off by one refused", "swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "partial fills", "deposits into a pool without pool tokens", "with fees", "from the fee account"], assumptions: ASSUME, case: c03 },
        Prop { id: "C04", rule: "a successful instruction in a random history over several pools, whose complete account difference was explained by its documented roles; distinct (instruction, accounts changed, amounts)", quick: 60_000, thorough: 400_000, need: &["swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "wrapped SOL moved", "by delegate", "owner fee minted", "withdraw fee moved", "failed instructions", "shared accounts", "pools created"], assumptions: ASSUME, case: c04 },
    ]
}

fn opname(op: Op) -> &'static str {
    match op {
        Op::Swap => "swap",
        Op::DepositAll => "deposit all",
        Op::WithdrawAll => "withdraw all",
        Op::DepositSingle => "deposit single",
        Op::WithdrawSingle => "withdraw single",
    }
}
fn keyof(k: &Pubkey) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&k.as_ref()[..8]);
    u64::from_le_bytes(b)
}

fn no_crash(rec: &Record, id: &str) -> R {
    match &rec.outcome {
        Outcome::Panic(m) => viol(format!("{}-abort", id), format!("instruction panicked: {}", m)),
        _ => Ok(()),
    }
}

/// the accounts a successful instruction names are the pool's own, each in its role
fn named_right(rec: &Record, ix: &Ix, op: Op) -> R {
    let ro = roles(op);
    let k = |i: usize| ix.metas[i].key;
    let st = match is_pool(&rec.pre[&k(0)]) {
        Some(s) => s,
        None => return viol("C01-pool", format!("{} succeeded on an account that is no initialized pool of the program", opname(op))),
    };
    let auth = Pubkey::create_program_address(&[k(0).as_ref(), &[st.bump]], &pid()).ok();
    check!(auth == Some(k(1)), "C01-authority", "{} succeeded with an authority that is not the pool's", opname(op));
    let (v1, v2) = (k(ro.vaults.0), k(ro.vaults.1));
    let straight = v1 == st.vault_a && v2 == st.vault_b;
    let crossed = v1 == st.vault_b && v2 == st.vault_a;
    check!(straight || (op == Op::Swap && crossed), "C01-vault", "{} succeeded with vaults that are not the pool's in their roles", opname(op));
    check!(v1 != v2, "C01-vault", "{} succeeded with the same vault on both sides", opname(op));
    check!(k(ro.mint) == st.mint, "C01-mint", "{} succeeded with a pool mint that is not the pool's", opname(op));
    check!(k(ro.tp) == st.tp, "C01-token-program", "{} succeeded with another token program", opname(op));
    if let Some(f) = ro.fee {
        check!(k(f) == st.fee, "C01-fee", "{} succeeded with a fee account that is not the pool's", opname(op));
    }
    let pairs: &[(usize, usize)] = match op {
        Op::Swap => &[(3, 4), (6, 5)],
        Op::DepositAll => &[(3, 5), (4, 6)],
        Op::WithdrawAll => &[(7, 5), (8, 6)],
        Op::DepositSingle => &[(3, 4), (3, 5)],
        Op::WithdrawSingle => &[(7, 5), (7, 6)],
    };
    for (i, j) in pairs {
        check!(k(*i) != k(*j), "C01-user-side", "{} succeeded with a vault as the user's account", opname(op));
    }
    Ok(())
}
/// no pool but the named one loses vault tokens or has its pool token supply changed
fn others_kept(w: &World, rec: &Record, named: &Pubkey) -> R {
    for p in &w.pools {
        if p.swap == *named {
            continue;
        }
        let shared = w.pools.iter().any(|q| q.swap == *named && (q.pool_mint == p.pool_mint || q.vault_a == p.vault_a || q.vault_b == p.vault_b));
        if shared {
            continue;
        }
        check!(delta(rec, &p.vault_a) >= 0 && delta(rec, &p.vault_b) >= 0, "C01-other-pool", "an instruction naming another pool reduced this pool's vaults by {} / {}", -delta(rec, &p.vault_a), -delta(rec, &p.vault_b));
        check!(supply_delta(rec, &p.pool_mint) == 0, "C01-other-pool", "an instruction naming another pool changed this pool's token supply by {}", supply_delta(rec, &p.pool_mint));
    }
    Ok(())
}

/// what an outsider could put in the place of role `i`; None when it would be the same account
fn stand_in(r: &mut Rng, sc: &mut Scen, ix: &mut Ix, op: Op, pi: usize, ui: usize, i: usize) -> Option<&'static str> {
    let ro = roles(op);
    let p = sc.w.pools[pi].clone();
    let q = {
        let qi = (pi + 1 + r.usize(sc.w.pools.len() - 1)) % sc.w.pools.len();
        sc.w.pools[qi].clone()
    };
    let u = sc.users[ui].clone();
    let other = sc.users[1 - ui].clone();
    let old = ix.metas[i].key;
    let any = [p.swap, p.authority, p.vault_a, p.vault_b, p.pool_mint, p.fee_acct, p.mint_a, p.mint_b, q.swap, q.authority, q.vault_a, q.vault_b, q.pool_mint, q.fee_acct, u.key, other.key, u.tok[&p.mint_a], u.tok[&p.mint_b], u.tok[&p.pool_mint], other.tok[&p.mint_a], other.tok[&p.mint_b], other.tok[&p.pool_mint], token_program()];
    let (new, what) = if r.chance(1, 8) {
        // anything anywhere
        let k = if r.chance(1, 2) {
            *r.pick(&any)
        } else {
            let j = r.usize(ix.metas.len());
            ix.metas[j].key
        };
        let what = match i {
            0 => "role pool",
            1 => "role authority",
            i if i == ro.vaults.0 || i == ro.vaults.1 => "role vault",
            i if i == ro.mint => "role mint",
            i if i == ro.tp => "role token program",
            i if Some(i) == ro.fee => "role fee",
            _ => "role user",
        };
        (k, what)
    } else if i == 0 {
        let k = match r.below(4) {
            0 => q.swap,
            1 => {
                // the same bytes in an account of another program
                let k = sc.w.key(r);
                let owner = sc.w.key(r);
                let d = sc.w.l.get(&p.swap).data.clone();
                sc.w.put(k, owner, d);
                k
            }
            2 => {
                // the same bytes in another account of the program
                let k = sc.w.key(r);
                let d = sc.w.l.get(&p.swap).data.clone();
                sc.w.put(k, pid(), d);
                k
            }
            _ => *r.pick(&any),
        };
        (k, "role pool")
    } else if i == 1 {
        let k = match r.below(5) {
            0 => q.authority,
            1 => u.key,
            2 => sc.w.wallet(r),
            3 => {
                // the address of another bump seed
                let mut k = None;
                for b in (0..=255u8).rev() {
                    if b != p.bump {
                        if let Ok(x) = Pubkey::create_program_address(&[p.swap.as_ref(), &[b]], &pid()) {
                            k = Some(x);
                            break;
                        }
                    }
                }
                let k = k?;
                sc.w.put(k, solana_program::system_program::id(), vec![]);
                k
            }
            _ => p.swap,
        };
        if r.chance(1, 2) && k != p.authority {
            ix.metas[i].signer = k == u.key || !sc.w.pools.iter().any(|x| x.authority == k || x.swap == k);
        }
        (k, "role authority")
    } else if i == ro.vaults.0 || i == ro.vaults.1 {
        let real = tok(&sc.w.l, &old);
        let k = match r.below(7) {
            0 => {
                if old == p.vault_a {
                    p.vault_b
                } else {
                    p.vault_a
                }
            }
            1 => {
                // a vault of another pool, preferably of the same token
                if q.mint_a == real.mint {
                    q.vault_a
                } else if q.mint_b == real.mint {
                    q.vault_b
                } else {
                    q.vault_a
                }
            }
            2 | 3 => {
                // a look-alike belonging to the pool's authority
                let n = match r.below(5) {
                    0 => real.amount,
                    1 => real.amount / 2,
                    2 => r.range(1, 1000),
                    3 => real.amount.saturating_mul(3),
                    _ => r.logpos(50),
                };
                sc.w.token(r, real.mint, p.authority, n)
            }
            4 => {
                let n = real.amount;
                sc.w.token(r, real.mint, u.key, n)
            }
            5 => u.tok[&real.mint],
            _ => other.tok[&real.mint],
        };
        (k, "role vault")
    } else if i == ro.mint {
        let real = mint_of(&sc.w.l, &p.pool_mint);
        let k = match r.below(5) {
            0 => q.pool_mint,
            1 => p.mint_a,
            _ => {
                // a look-alike the pool's authority may mint, with the user holding some of it
                let k = sc.w.mint(r, Some(p.authority));
                let s = match r.below(4) {
                    0 => real.supply,
                    1 => 0,
                    2 => r.range(1, 1000),
                    _ => r.logpos(50),
                };
                let t = sc.w.token(r, k, u.key, 0);
                sc.w.set_amount(&t, s);
                sc.w.edit_mint(&k, |m| m.supply = s);
                if r.chance(2, 3) {
                    for m in ix.metas.iter_mut() {
                        if m.key == u.tok[&p.pool_mint] {
                            m.key = t;
                        }
                    }
                }
                if let (Some(f), true) = (ro.fee, r.chance(1, 3)) {
                    let t = sc.w.token(r, k, p.fee_owner, 0);
                    ix.metas[f].key = t;
                }
                k
            }
        };
        (k, "role mint")
    } else if i == ro.tp {
        // an executable of the attacker's that says yes to everything
        let k = sc.w.key(r);
        sc.w.l.accts.insert(k, Account { lamports: 1, data: vec![], owner: solana_program::bpf_loader::id(), executable: true });
        (k, "role token program")
    } else if Some(i) == ro.fee {
        let k = match r.below(5) {
            0 => u.tok[&p.pool_mint],
            1 => {
                // the account the pool tokens come from: no fee on itself
                if op == Op::Swap {
                    other.tok[&p.pool_mint]
                } else {
                    ix.metas[ro.src[0]].key
                }
            }
            2 => q.fee_acct,
            3 => sc.w.token(r, p.pool_mint, u.key, 0),
            _ => sc.w.token(r, p.pool_mint, p.fee_owner, 0),
        };
        (k, "role fee")
    } else if i == 2 {
        let k = *r.pick(&[p.authority, other.key, p.swap]);
        (k, "role user")
    } else {
        // the user's side: vaults of this or another pool, foreign accounts
        let k = *r.pick(&[p.vault_a, p.vault_b, q.vault_a, q.vault_b, p.fee_acct, other.tok[&p.mint_a], other.tok[&p.mint_b], other.tok[&p.pool_mint]]);
        (k, "role user")
    };
    if new == old {
        return None;
    }
    if sc.w.pools.iter().any(|x| x.authority == new) {
        // nobody can sign for a program-derived address
        ix.metas[i].signer = false;
    }
    ix.metas[i].key = new;
    Some(what)
}

/// a pool that looks right but is not one: everything consistent except one thing an outsider cannot have
fn counterfeit(r: &mut Rng, sc: &mut Scen, pi: usize) {
    let k = sc.w.pools[pi].swap;
    let a = sc.w.l.accts.get_mut(&k).unwrap();
    match r.below(9) {
        0 => a.owner = Pubkey::new_from_array(r.bytes32()),
        1 => a.owner = token_program(),
        2 => a.data[1] = 0,
        3 => a.data[0] = 0,
        4 => a.data[0] = r.range(2, 255) as u8,
        5 => a.data[1] = r.range(2, 255) as u8,
        6 => a.data.push(0),
        7 => {
            a.data.pop();
        }
        _ => a.owner = solana_program::system_program::id(),
    }
}

fn c01(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let zero = r.chance(2, 5);
    let n = r.range(2, 3) as usize;
    let mut sc = Scen::new(r, n, zero);
    if r.chance(1, 40) {
        // a drained pool whose last pool tokens are withdrawn: nothing needs the authority's signature
        let p = sc.w.pools[0].clone();
        sc.w.set_amount(&p.vault_a, 0);
        sc.w.set_amount(&p.vault_b, 0);
    }
    for _ in 0..3 {
        let op = op_of(r);
        let pi = r.usize(n);
        let ui = r.usize(2);
        let ix = sc.honest(r, pi, op, ui);
        let base = sc.w.l.clone().exec(&ix);
        no_crash(&base, "C01")?;
        if !base.outcome.ok() {
            o.n("refused as sent");
            continue;
        }
        named_right(&base, &ix, op)?;
        others_kept(&sc.w, &base, &sc.w.pools[pi].swap)?;
        o.n(opname(op));
        let st0 = sc.st(pi);
        let empty = st0.a == 0 && st0.b == 0;
        if empty {
            o.n("empty vaults");
        }
        let key = |what: &str, j: usize, k: Pubkey| [op as u64, st0.a, st0.b, st0.s, j as u64, what.len() as u64, keyof(&k)];
        // counterfeit pools
        if r.chance(1, 3) {
            let mut s2 = sc.clone();
            counterfeit(r, &mut s2, pi);
            let rec = s2.w.l.exec(&ix);
            no_crash(&rec, "C01")?;
            o.n("counterfeit pools");
            o.eval(true, &key("fake", 0, ix.metas[0].key));
            check!(!rec.outcome.ok(), "C01-counterfeit", "{} succeeded on a pool account with owner {} and first bytes {:?} of {}", opname(op), s2.w.l.get(&ix.metas[0].key).owner, &s2.w.l.get(&ix.metas[0].key).data[..2.min(s2.w.l.get(&ix.metas[0].key).data.len())], s2.w.l.get(&ix.metas[0].key).data.len());
        }
        // every role once, a second replacement now and then
        let nm = ix.metas.len();
        let start = r.usize(nm);
        for t in 0..nm {
            let i = (start + t) % nm;
            let mut s2 = sc.clone();
            let mut ix2 = ix.clone();
            let what = match stand_in(r, &mut s2, &mut ix2, op, pi, ui, i) {
                Some(w) => w,
                None => continue,
            };
            if r.chance(1, 4) {
                let j = r.usize(nm);
                if j != i {
                    stand_in(r, &mut s2, &mut ix2, op, pi, ui, j);
                }
            }
            let rec = s2.w.l.exec(&ix2);
            no_crash(&rec, "C01")?;
            o.n(what);
            o.eval(true, &key(what, i, ix2.metas[i].key));
            if rec.outcome.ok() {
                o.n("replaced and still fine");
                named_right(&rec, &ix2, op)?;
            } else {
                o.n("replaced and refused");
            }
            others_kept(&s2.w, &rec, &ix2.metas[0].key)?;
            o.n("other pools compared");
            o.sample(|| format!("{} with {} replaced by {}: {:?}", opname(op), what, ix2.metas[i].key, rec.outcome));
        }
        // both vaults exchanged
        if op != Op::Swap {
            let ro = roles(op);
            let mut ix2 = ix.clone();
            let t = ix2.metas[ro.vaults.0].key;
            ix2.metas[ro.vaults.0].key = ix2.metas[ro.vaults.1].key;
            ix2.metas[ro.vaults.1].key = t;
            if r.chance(1, 2) && ro.src.len() == 2 {
                let t = ix2.metas[3].key;
                ix2.metas[3].key = ix2.metas[4].key;
                ix2.metas[4].key = t;
            }
            if r.chance(1, 2) && ro.dst.len() == 2 {
                let t = ix2.metas[7].key;
                ix2.metas[7].key = ix2.metas[8].key;
                ix2.metas[8].key = t;
            }
            let rec = sc.w.l.clone().exec(&ix2);
            no_crash(&rec, "C01")?;
            o.eval(true, &key("crossed", 99, t));
            if rec.outcome.ok() {
                named_right(&rec, &ix2, op)?;
            }
        }
        sc.w.l.exec(&ix);
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
/// every loss outside the named pool's vaults is covered by a signature
fn covered(rec: &Record, ix: &Ix, o: &mut Obs) -> R {
    let own: Vec<Pubkey> = is_pool(&rec.pre[&ix.metas[0].key]).map(|s| vec![s.vault_a, s.vault_b]).unwrap_or_default();
    for (k, a) in &rec.pre {
        let (t0, t1) = match (tok_acc(a), tok_acc(&rec.post[k])) {
            (Some(x), Some(y)) => (x, y),
            _ => continue,
        };
        if t1.amount >= t0.amount || own.contains(k) {
            continue;
        }
        let lost = t0.amount - t1.amount;
        let owner = rec.signers.contains(&t0.owner);
        let del = match t0.delegate {
            COption::Some(d) => rec.signers.contains(&d),
            COption::None => false,
        };
        if owner {
            o.n("moved by owner");
            if !del {
                check!(t1.delegated_amount == t0.delegated_amount && t1.delegate == t0.delegate, "C02-allowance", "the owner's own transfer changed a delegate's allowance from {} to {}", t0.delegated_amount, t1.delegated_amount);
            }
        } else {
            check!(del, "C02-unsigned", "{} tokens left an account although neither its owner nor a delegate signed", lost);
            check!(t0.delegated_amount >= lost, "C02-allowance", "{} tokens left an account whose signing delegate was allowed {}", lost, t0.delegated_amount);
            check!(t1.delegated_amount == t0.delegated_amount - lost, "C02-allowance", "allowance went from {} to {} for {} tokens", t0.delegated_amount, t1.delegated_amount, lost);
            o.n("moved by delegate");
            if t1.delegated_amount == 0 {
                o.n("whole allowance used");
            }
        }
    }
    Ok(())
}

fn c02(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let zero = r.chance(1, 3);
    let mut sc = Scen::new(r, 2, zero);
    for _ in 0..4 {
        let op = op_of(r);
        let pi = r.usize(2);
        let ui = r.usize(2);
        let mut ix = sc.honest(r, pi, op, ui);
        let ro = roles(op);
        let p = sc.w.pools[pi].clone();
        let q = sc.w.pools[1 - pi].clone();
        let base = sc.w.l.clone().exec(&ix);
        if !base.outcome.ok() {
            continue;
        }
        covered(&base, &ix, o)?;
        let mut s2 = sc.clone();
        let victim = sc.users[ui].key;
        let thief = sc.users[1 - ui].key;
        // which of the accounts taken from is arranged (all for two-sided deposits half the time)
        let which: Vec<usize> = if ro.src.len() == 2 && r.chance(1, 2) { vec![ro.src[r.usize(2)]] } else { ro.src.to_vec() };
        let arr = r.below(13);
        let mut taken = 0u64;
        for i in &which {
            taken = taken.max((-delta(&base, &ix.metas[*i].key)).max(0) as u64);
        }
        // a thief who owns everything else himself
        let switch = |s2: &mut Scen, ix: &mut Ix, auth: Pubkey, signs: bool, r: &mut Rng| {
            for i in ro.src {
                if !which.contains(i) {
                    let k = ix.metas[*i].key;
                    s2.w.edit_tok(&k, |t| t.owner = auth);
                }
            }
            for i in ro.dst {
                if r.chance(1, 2) {
                    let k = ix.metas[*i].key;
                    if !which.contains(i) {
                        s2.w.edit_tok(&k, |t| t.owner = thief);
                    }
                }
            }
            ix.metas[2].key = auth;
            ix.metas[2].signer = signs;
        };
        let allowance = match r.below(6) {
            0 => taken,
            1 => taken.saturating_sub(1),
            2 => taken.saturating_add(1),
            3 => 0,
            4 => u64::MAX,
            _ => r.near(taken),
        };
        let src: Vec<Pubkey> = which.iter().map(|i| ix.metas[*i].key).collect();
        match arr {
            0 => switch(&mut s2, &mut ix, thief, true, r),
            1 => {
                ix.metas[2].signer = false;
                o.n("authority unsigned");
            }
            2 | 3 | 4 => {
                // delegated to the thief
                for k in &src {
                    s2.w.edit_tok(k, |t| {
                        t.delegate = COption::Some(thief);
                        t.delegated_amount = allowance;
                    });
                }
                let signs = arr != 4 || r.chance(1, 2);
                switch(&mut s2, &mut ix, thief, signs, r);
                if allowance < taken {
                    o.n("allowance too small");
                }
            }
            5 => {
                // tokens that belong to the pool's own authority
                for k in &src {
                    s2.w.edit_tok(k, |t| t.owner = p.authority);
                }
                switch(&mut s2, &mut ix, p.authority, false, r);
                o.n("owned by the pool authority");
            }
            6 => {
                for k in &src {
                    s2.w.edit_tok(k, |t| t.owner = p.authority);
                }
                switch(&mut s2, &mut ix, thief, true, r);
                o.n("owned by the pool authority");
            }
            7 => {
                for k in &src {
                    s2.w.edit_tok(k, |t| {
                        t.delegate = COption::Some(p.authority);
                        t.delegated_amount = u64::MAX;
                    });
                }
                let (a, s) = if r.chance(1, 2) { (p.authority, false) } else { (thief, true) };
                switch(&mut s2, &mut ix, a, s, r);
                o.n("delegated to the pool authority");
            }
            8 => {
                // the other pool's vault as the account to take from
                for i in &which {
                    let m = tok(&s2.w.l, &ix.metas[*i].key).mint;
                    if q.mint_a == m {
                        ix.metas[*i].key = q.vault_a;
                    } else if q.mint_b == m {
                        ix.metas[*i].key = q.vault_b;
                    }
                }
                let (a, s) = match r.below(3) {
                    0 => (q.authority, false),
                    1 => (p.authority, false),
                    _ => (thief, true),
                };
                for i in ro.src {
                    if !which.contains(i) {
                        let k = ix.metas[*i].key;
                        s2.w.edit_tok(&k, |t| t.owner = a);
                    }
                }
                ix.metas[2] = Meta { key: a, signer: s, writable: false };
                o.n("other pool's vault as source");
            }
            9 => {
                // the fee account as the account to take from
                if matches!(op, Op::WithdrawAll | Op::WithdrawSingle) {
                    ix.metas[ro.src[0]].key = p.fee_acct;
                    let (a, s) = match r.below(3) {
                        0 => (p.fee_owner, false),
                        1 => (p.fee_owner, true),
                        _ => (thief, true),
                    };
                    ix.metas[2] = Meta { key: a, signer: s, writable: false };
                }
            }
            10 => {
                // owner signs while somebody else is delegate
                for k in &src {
                    s2.w.edit_tok(k, |t| {
                        t.delegate = COption::Some(thief);
                        t.delegated_amount = allowance;
                    });
                }
            }
            11 => {
                // somebody signs, but in another place than the authority's
                ix.metas[2].signer = false;
                ix.metas[1].signer = false;
                ix.metas.push(Meta { key: thief, signer: true, writable: false });
                o.n("authority unsigned");
            }
            _ => {
                // the account is its own owner's delegate, or self-delegated
                for k in &src {
                    s2.w.edit_tok(k, |t| {
                        t.delegate = COption::Some(victim);
                        t.delegated_amount = allowance;
                    });
                }
            }
        }
        let rec = s2.w.l.exec(&ix);
        no_crash(&rec, "C02")?;
        let st = sc.st(pi);
        o.eval(true, &[op as u64, arr, st.a, st.b, st.s, allowance, taken]);
        if rec.outcome.ok() {
            check!(rec.signers.contains(&ix.metas[2].key), "C02-unsigned", "{} succeeded although the user authority did not sign", opname(op));
            covered(&rec, &ix, o)?;
        } else {
            o.n("refused");
        }
        o.sample(|| format!("{} arrangement {} allowance {} of {}: {:?}", opname(op), arr, allowance, taken, rec.outcome));
        if r.chance(1, 2) {
            let ix = sc.honest(r, pi, op, ui);
            sc.w.l.exec(&ix);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
fn u64at(d: &[u8], i: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[8 + 8 * i..16 + 8 * i]);
    u64::from_le_bytes(b)
}
fn put64(d: &mut [u8], i: usize, v: u64) {
    d[8 + 8 * i..16 + 8 * i].copy_from_slice(&v.to_le_bytes());
}
/// what the caller's limits speak about, as seen in the ledger: (value, is a maximum) per limit argument
fn limited(rec: &Record, ix: &Ix, op: Op) -> Vec<(i128, bool)> {
    let k = |i: usize| &ix.metas[i].key;
    match op {
        Op::Swap => vec![(delta(rec, k(6)), false)],
        Op::DepositAll => vec![(-delta(rec, k(3)), true), (-delta(rec, k(4)), true)],
        Op::WithdrawAll => vec![(delta(rec, k(7)), false), (delta(rec, k(8)), false)],
        Op::DepositSingle => vec![(delta(rec, k(7)), false)],
        Op::WithdrawSingle => vec![(-delta(rec, k(4)), true)],
    }
}
fn limits_hold(rec: &Record, ix: &Ix, op: Op, supply0: u64) -> R {
    let k = |i: usize| &ix.metas[i].key;
    let d = &ix.data;
    for (j, (v, max)) in limited(rec, ix, op).iter().enumerate() {
        let lim = u64at(d, j + 1) as i128;
        if *max {
            check!(*v <= lim, format!("C03-{:?}-maximum", op), "{} took {} although at most {} was allowed", opname(op), v, lim);
        } else {
            check!(*v >= lim, format!("C03-{:?}-minimum", op), "{} gave {} although at least {} was asked", opname(op), v, lim);
        }
    }
    let first = u64at(d, 0) as i128;
    match op {
        Op::Swap => check!(-delta(rec, k(3)) <= first, "C03-Swap-input", "swap took {} of the {} offered", -delta(rec, k(3)), first),
        Op::DepositAll => {
            if supply0 > 0 {
                check!(delta(rec, k(8)) == first, "C03-DepositAll-minted", "deposit minted {} instead of {}", delta(rec, k(8)), first);
            }
        }
        Op::WithdrawAll => check!(-delta(rec, k(4)) == first, "C03-WithdrawAll-taken", "withdrawal removed {} pool tokens instead of {}", -delta(rec, k(4)), first),
        Op::DepositSingle => check!(-delta(rec, k(3)) == first, "C03-DepositSingle-taken", "single-sided deposit took {} instead of {}", -delta(rec, k(3)), first),
        Op::WithdrawSingle => check!(delta(rec, k(7)) == first, "C03-WithdrawSingle-paid", "single-sided withdrawal paid {} instead of {}", delta(rec, k(7)), first),
    }
    Ok(())
}

fn c03(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let zero = r.chance(1, 4);
    let mut sc = Scen::new(r, 1, zero);
    let p = sc.w.pools[0].clone();
    if r.chance(1, 12) {
        // nobody holds pool tokens
        for k in [sc.users[0].tok[&p.pool_mint], sc.users[1].tok[&p.pool_mint], p.fee_acct] {
            sc.w.set_amount(&k, 0);
        }
        sc.w.edit_mint(&p.pool_mint, |m| m.supply = 0);
    }
    for _ in 0..4 {
        let op = op_of(r);
        let mut ix = sc.honest(r, 0, op, 0);
        if r.chance(1, 8) {
            let v = r.amount();
            put64(&mut ix.data, 0, v);
        }
        if p.curve.is_linear() && op == Op::Swap && r.chance(1, 3) {
            // more than the curve has
            put64(&mut ix.data, 0, 1 << 60);
        }
        let fee_src = matches!(op, Op::WithdrawAll | Op::WithdrawSingle) && r.chance(1, 5);
        if fee_src {
            ix.metas[4].key = p.fee_acct;
            ix.metas[2].key = p.fee_owner;
        }
        let st = sc.st(0);
        let free = sc.w.l.clone().exec(&ix);
        no_crash(&free, "C03")?;
        if !free.outcome.ok() {
            // tighter limits cannot help
            let mut ix2 = ix.clone();
            for j in 1..(ix.data.len() - 8) / 8 {
                let v = r.amount();
                put64(&mut ix2.data, j, v);
            }
            let rec = sc.w.l.clone().exec(&ix2);
            no_crash(&rec, "C03")?;
            check!(!rec.outcome.ok(), "C03-limits-help", "{} is refused without limits but accepted with {:?}", opname(op), &ix2.data[8..]);
            continue;
        }
        o.n(opname(op));
        limits_hold(&free, &ix, op, st.s)?;
        if op == Op::Swap && (-delta(&free, &ix.metas[3].key) as u64) < u64at(&ix.data, 0) {
            o.n("partial fills");
        }
        if op == Op::DepositAll && st.s == 0 {
            o.n("deposits into a pool without pool tokens");
        }
        if p.fees.trade.0 > 0 || p.fees.withdraw.0 > 0 {
            o.n("with fees");
        }
        if fee_src {
            o.n("from the fee account");
        }
        let vals = limited(&free, &ix, op);
        // all limits exactly met
        let mut ix2 = ix.clone();
        for (j, (v, _)) in vals.iter().enumerate() {
            put64(&mut ix2.data, j + 1, (*v).clamp(0, u64::MAX as i128) as u64);
        }
        let rec = sc.w.l.clone().exec(&ix2);
        no_crash(&rec, "C03")?;
        let key = |l: u64, t: u64| [op as u64, st.a, st.b, st.s, u64at(&ix.data, 0), l, t];
        o.eval(true, &key(0, 1));
        check!(rec.outcome.ok(), format!("C03-{:?}-exact-refused", op), "{} of {} is refused ({:?}) with limits exactly met: {:?}", opname(op), u64at(&ix.data, 0), rec.outcome, vals);
        check!(rec.post == free.post, format!("C03-{:?}-limits-change-result", op), "{} does something else when its limits are exactly met", opname(op));
        o.n("exactly met limit accepted");
        // one limit one too tight
        for (j, (v, max)) in vals.iter().enumerate() {
            let tight = if *max { *v - 1 } else { *v + 1 };
            if !(0..=u64::MAX as i128).contains(&tight) {
                continue;
            }
            let mut ix3 = if r.chance(1, 2) { ix.clone() } else { ix2.clone() };
            put64(&mut ix3.data, j + 1, tight as u64);
            let rec = sc.w.l.clone().exec(&ix3);
            no_crash(&rec, "C03")?;
            o.eval(true, &key(j as u64, tight as u64));
            check!(!rec.outcome.ok(), format!("C03-{:?}-limit-ignored", op), "{} of {} succeeded with limit {} set to {} where it would {} {}", opname(op), u64at(&ix.data, 0), j, tight, if *max { "take" } else { "give" }, v);
            o.n("limit off by one refused");
        }
        // random limits, independent
        for _ in 0..2 {
            let mut ix3 = ix.clone();
            let mut met = true;
            for (j, (v, max)) in vals.iter().enumerate() {
                let lim = match r.below(3) {
                    0 => r.amount(),
                    _ => r.near((*v).clamp(0, u64::MAX as i128) as u64),
                };
                put64(&mut ix3.data, j + 1, lim);
                met &= if *max { *v <= lim as i128 } else { *v >= lim as i128 };
            }
            let rec = sc.w.l.clone().exec(&ix3);
            no_crash(&rec, "C03")?;
            o.eval(true, &key(u64at(&ix3.data, 1), 7));
            check!(rec.outcome.ok() == met, format!("C03-{:?}-limits", op), "{} of {} with limits {:?}: {:?}, though it would move {:?}", opname(op), u64at(&ix.data, 0), (1..=vals.len()).map(|j| u64at(&ix3.data, j)).collect::<Vec<_>>(), rec.outcome, vals);
            if rec.outcome.ok() {
                limits_hold(&rec, &ix3, op, st.s)?;
            }
        }
        o.sample(|| format!("{} of {} on {:?}: limits {:?}", opname(op), u64at(&ix.data, 0), p.curve, vals));
        sc.w.l.exec(&ix2);
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
/// the complete account difference of a successful instruction is the documented one
fn explained(rec: &Record, ix: &Ix, op: Op, o: &mut Obs) -> R {
    let ro = roles(op);
    let k = |i: usize| ix.metas[i].key;
    let st = match is_pool(&rec.pre[&k(0)]) {
        Some(s) => s,
        None => return viol("C04-pool", "succeeded on something that is no pool"),
    };
    let (v1, v2) = (k(ro.vaults.0), k(ro.vaults.1));
    let dv1 = delta(rec, &v1);
    let dv2 = delta(rec, &v2);
    let m = supply_delta(rec, &k(ro.mint));
    let mut want: BTreeMap<Pubkey, i128> = BTreeMap::new();
    let mut add = |key: Pubkey, d: i128| *want.entry(key).or_insert(0) += d;
    add(v1, dv1);
    add(v2, dv2);
    match op {
        Op::Swap => {
            check!(dv1 >= 0 && dv2 <= 0 && m >= 0, "C04-swap-signs", "swap changed the vaults by {} and {} and the supply by {}", dv1, dv2, m);
            add(k(3), -dv1);
            add(k(6), -dv2);
            add(k(8), m);
            if m > 0 {
                o.n("owner fee minted");
            }
        }
        Op::DepositAll => {
            check!(dv1 > 0 && dv2 > 0 && m > 0, "C04-deposit-signs", "deposit changed the vaults by {} and {} and the supply by {}", dv1, dv2, m);
            add(k(3), -dv1);
            add(k(4), -dv2);
            add(k(8), m);
        }
        Op::WithdrawAll => {
            check!(dv1 <= 0 && dv2 <= 0 && m <= 0, "C04-withdraw-signs", "withdrawal changed the vaults by {} and {} and the supply by {}", dv1, dv2, m);
            let f = if k(4) == k(9) { 0 } else { delta(rec, &k(9)) };
            check!(f >= 0, "C04-withdraw-signs", "withdrawal took {} from the fee account", -f);
            add(k(4), m - f);
            add(k(9), f);
            add(k(7), -dv1);
            add(k(8), -dv2);
            if f > 0 {
                o.n("withdraw fee moved");
            }
        }
        Op::DepositSingle => {
            check!((dv1 > 0) != (dv2 > 0) && dv1 >= 0 && dv2 >= 0 && m > 0, "C04-deposit-signs", "single-sided deposit changed the vaults by {} and {} and the supply by {}", dv1, dv2, m);
            add(k(3), -dv1 - dv2);
            add(k(7), m);
        }
        Op::WithdrawSingle => {
            check!((dv1 < 0) != (dv2 < 0) && dv1 <= 0 && dv2 <= 0 && m <= 0, "C04-withdraw-signs", "single-sided withdrawal changed the vaults by {} and {} and the supply by {}", dv1, dv2, m);
            let f = if k(4) == k(8) { 0 } else { delta(rec, &k(8)) };
            check!(f >= 0, "C04-withdraw-signs", "withdrawal took {} from the fee account", -f);
            add(k(4), m - f);
            add(k(8), f);
            add(k(7), -dv1 - dv2);
            if f > 0 {
                o.n("withdraw fee moved");
            }
        }
    }
    // the mint of every change agrees: nothing moves between different tokens
    let mut per_mint: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for (key, a) in &rec.pre {
        let b = &rec.post[key];
        let d = delta(rec, key);
        let w = want.get(key).copied().unwrap_or(0);
        if let Some(t0) = tok_acc(a) {
            check!(d == w, "C04-balance", "{}: the balance of account role(s) {:?} changed by {} instead of {}", opname(op), ix.metas.iter().enumerate().filter(|x| x.1.key == *key).map(|x| x.0).collect::<Vec<_>>(), d, w);
            *per_mint.entry(t0.mint).or_insert(0) += d;
            let mut x = t0;
            x.amount = (x.amount as i128 + d) as u64;
            let t1 = match tok_acc(b) {
                Some(t) => t,
                None => return viol("C04-token-account", "a token account was destroyed"),
            };
            if let (COption::Some(g), true) = (t0.delegate, d < 0 && ro.src.iter().any(|i| k(*i) == *key)) {
                if g == k(2) {
                    // the delegate's transfer uses up its allowance
                    x.delegated_amount = (x.delegated_amount as i128 + d).max(0) as u64;
                    if x.delegated_amount == 0 {
                        x.delegate = COption::None;
                    }
                    o.n("by delegate");
                }
            }
            check!(x == t1, "C04-token-account", "{}: a token account's owner, state, delegate or close authority changed: {:?} became {:?}", opname(op), x, t1);
            let lam = if t0.is_native() { d } else { 0 };
            check!(b.lamports as i128 - a.lamports as i128 == lam, "C04-lamports", "lamports of a token account changed by {}", b.lamports as i128 - a.lamports as i128);
            if t0.is_native() && d != 0 {
                o.n("wrapped SOL moved");
            }
            check!(a.owner == b.owner && a.executable == b.executable && a.data.len() == b.data.len(), "C04-token-account", "a token account changed its program or size");
        } else if *key == k(ro.mint) {
            let (m0, m1) = match (mint_acc(a), mint_acc(b)) {
                (Some(x), Some(y)) => (x, y),
                _ => return viol("C04-mint", "pool mint destroyed"),
            };
            let mut x = m0;
            x.supply = m1.supply;
            check!(x == m1, "C04-mint", "{}: more than the supply of the pool mint changed: {:?} became {:?}", opname(op), m0, m1);
            check!(a.lamports == b.lamports, "C04-lamports", "lamports of the pool mint changed");
        } else {
            check!(a == b, "C04-other-account", "{} changed account role(s) {:?}", opname(op), ix.metas.iter().enumerate().filter(|x| x.1.key == *key).map(|x| x.0).collect::<Vec<_>>());
        }
    }
    for (mint, d) in per_mint {
        let want = if mint == st.mint { m } else { 0 };
        check!(d == want, "C04-conservation", "{}: tokens of one mint changed by {} in all while its supply changed by {}", opname(op), d, want);
    }
    Ok(())
}

/// one holder gathers every pool token and withdraws all of it
fn everything(r: &mut Rng, sc: &mut Scen, pi: usize, ui: usize) -> Ix {
    let p = sc.w.pools[pi].clone();
    let u = sc.users[ui].clone();
    let mut all = 0u64;
    let ks: Vec<Pubkey> = sc.w.l.accts.keys().cloned().collect();
    for k in &ks {
        if let Some(t) = tok_acc(sc.w.l.get(k)) {
            if t.mint == p.pool_mint && t.amount > 0 {
                all += t.amount;
                sc.w.edit_tok(k, |t| t.amount = 0);
            }
        }
    }
    let (auth, src) = if r.chance(1, 2) { (p.fee_owner, p.fee_acct) } else { (u.key, u.tok[&p.pool_mint]) };
    sc.w.edit_tok(&src, |t| t.amount = all);
    withdraw_all_ix(&p, auth, src, u.tok[&p.mint_a], u.tok[&p.mint_b], all, 0, 0)
}

fn c04(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let n = r.range(2, 3) as usize;
    let zero = r.chance(1, 4);
    let mut sc = Scen::new(r, n, zero);
    // one more pool comes to life by the program's own hand
    if r.chance(1, 3) {
        let c = if r.chance(1, 2) { Curve::Price(r.logpos(8)) } else { crate::lin::params(r).curve() };
        let fees = if c.is_linear() { Fees::linear() } else { Fees::small(r) };
        let pair = (sc.w.pools[0].mint_a, sc.w.pools[0].mint_b);
        let a = if c.is_linear() { 0 } else { r.logpos(40) };
        let b = r.logpos(40);
        let (p, _) = sc.w.prepare_pool(r, c, fees, a, b, Some(pair));
        // half the initial recipients are users of the scenario
        let dest = sc.w.token(r, p.pool_mint, sc.users[0].key, 0);
        let ix = init_ix(&p, dest);
        let rec = sc.w.l.exec(&ix);
        no_crash(&rec, "C04")?;
        if rec.outcome.ok() {
            o.n("pools created");
            for (k, a) in &rec.pre {
                let b = &rec.post[k];
                check!(a.lamports == b.lamports && a.owner == b.owner, "C04-create", "creation moved lamports or ownership");
                if *k == p.swap {
                    continue;
                }
                let mut x = a.clone();
                if *k == dest {
                    check!(delta(&rec, k) == INITIAL_SUPPLY as i128, "C04-create", "recipient got {}", delta(&rec, k));
                    x.data[64..72].copy_from_slice(&b.data[64..72]);
                }
                if *k == p.pool_mint {
                    x.data[36..44].copy_from_slice(&b.data[36..44]);
                }
                check!(x == *b, "C04-create", "creation changed another account");
            }
            let other = sc.users[1].key;
            let t2 = sc.w.token(r, p.pool_mint, other, 0);
            sc.users[0].tok.insert(p.pool_mint, dest);
            sc.users[1].tok.insert(p.pool_mint, t2);
            sc.w.pools.push(p);
        }
    }
    let config: Vec<Vec<u8>> = sc.w.pools.iter().map(|p| sc.w.l.get(&p.swap).data.clone()).collect();
    let frozen = r.chance(1, 8);
    for step in 0..10u64 {
        let op = op_of(r);
        let pi = r.usize(sc.w.pools.len());
        let ui = r.usize(2);
        let p = sc.w.pools[pi].clone();
        let mut ix = sc.honest(r, pi, op, ui);
        let (op, ix_all) = if r.chance(1, 12) && !p.curve.is_linear() {
            (Op::WithdrawAll, Some(everything(r, &mut sc, pi, ui)))
        } else {
            (op, None)
        };
        if let Some(x) = ix_all {
            o.n("everything withdrawn");
            ix = x;
        }
        let ro = roles(op);
        // unusual but legal arrangements
        match r.below(9) {
            0 => {
                // pool tokens from or to the fee account
                if matches!(op, Op::WithdrawAll | Op::WithdrawSingle) {
                    ix.metas[4].key = p.fee_acct;
                    ix.metas[2].key = p.fee_owner;
                } else if op != Op::Swap {
                    let d = ro.dst[0];
                    ix.metas[d].key = p.fee_acct;
                }
                o.n("shared accounts");
            }
            1 => {
                // paid to somebody else
                let other = &sc.users[1 - ui];
                for i in ro.dst {
                    if let Some(m) = tok_acc(sc.w.l.get(&ix.metas[*i].key)).map(|t| t.mint) {
                        if let Some(k) = other.tok.get(&m) {
                            ix.metas[*i].key = *k;
                        }
                    }
                }
            }
            2 | 3 => {
                // by a delegate, with or without enough allowance
                let d = sc.w.wallet(r);
                let n = if r.chance(1, 2) { u64::MAX } else { r.amount() };
                for i in ro.src {
                    let k = ix.metas[*i].key;
                    sc.w.edit_tok(&k, |t| {
                        t.delegate = COption::Some(d);
                        t.delegated_amount = n;
                    });
                }
                ix.metas[2].key = d;
            }
            4 => {
                // a swap or withdrawal paid into another pool's vault: a donation
                let q = sc.w.pools[(pi + 1) % sc.w.pools.len()].clone();
                for i in ro.dst {
                    let m = tok_acc(sc.w.l.get(&ix.metas[*i].key)).map(|t| t.mint);
                    if m == Some(q.mint_a) {
                        ix.metas[*i].key = q.vault_a;
                    } else if m == Some(q.mint_b) {
                        ix.metas[*i].key = q.vault_b;
                    }
                }
            }
            5 => {
                // a mischievous one
                let i = r.usize(ix.metas.len());
                let _ = stand_in(r, &mut sc, &mut ix, op, pi, ui, i);
            }
            6 if frozen => {
                let i = r.usize(ix.metas.len());
                let k = ix.metas[i].key;
                if tok_acc(sc.w.l.get(&k)).is_some() {
                    sc.w.edit_tok(&k, |t| t.state = spl_token::state::AccountState::Frozen);
                }
            }
            _ => {}
        }
        let before = sc.w.l.clone();
        let rec = sc.w.l.exec(&ix);
        no_crash(&rec, "C04")?;
        o.eval(rec.outcome.ok(), &[op as u64, step, keyof(&ix.metas[0].key), u64at(&ix.data, 0)]);
        if rec.outcome.ok() {
            o.n(opname(op));
            // a successful instruction naming a look-alike pool of ours is C01's business
            explained(&rec, &ix, op, o)?;
            o.sample(|| format!("{} of {}: {} token program calls, all differences explained", opname(op), u64at(&ix.data, 0), rec.cpi.len()));
        } else {
            o.n("failed instructions");
            check!(before.accts == sc.w.l.accts, "C04-failed", "a failed instruction changed something");
        }
        for (j, p) in sc.w.pools.iter().enumerate() {
            check!(sc.w.l.get(&p.swap).data == config[j], "C04-configuration", "{} changed the stored configuration of a pool", opname(op));
        }
    }
    Ok(())
}
