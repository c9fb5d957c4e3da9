//! C26: the work of one instruction, counted in basic blocks of the program and its arithmetic.
use super::robust::{raw64, wild_curve, wild_fees};
use crate::lin;
use crate::pools;
use crate::report::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::work::blocks;
use crate::world::*;
use token_bonding_curve::processor::Processor;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "an instruction executed with its basic blocks counted, as one step of a search for the most expensive one; distinct (instruction, curve, parameters, balances, amounts)",
        quick: 60_000,
        thorough: 2_000_000,
        need: &NEED,
        assumptions: &["work is counted as basic blocks executed in token-bonding-curve, spl-math and uint (compiler-inserted coverage callbacks); the token program, the address derivation and memory copies are not counted", "the bounds are 1.75 times (plus 300) the largest count seen in long searches on the code as it is"],
        case: c26,
    }]
}
const NEED: [&str; 9] = ["accepted", "refused", "swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "create", "climbed"];
/// (what, largest count seen on the code as it is) by instruction and curve type
const SEEN: [[(&str, u64); 5]; 7] = [
    [("swap constant_product", 9656), ("swap constant_price", 1136), ("swap stable", 49844), ("swap offset", 9666), ("swap linear", 7487)],
    [("hosted swap constant_product", 9361), ("hosted swap constant_price", 846), ("hosted swap stable", 49693), ("hosted swap offset", 9368), ("hosted swap linear", 7097)],
    [("deposit all constant_product", 894), ("deposit all constant_price", 1024), ("deposit all stable", 896), ("deposit all offset", 509), ("deposit all linear", 512)],
    [("withdraw all constant_product", 1040), ("withdraw all constant_price", 1152), ("withdraw all stable", 1042), ("withdraw all offset", 1045), ("withdraw all linear", 656)],
    [("deposit single constant_product", 17209), ("deposit single constant_price", 993), ("deposit single stable", 30954), ("deposit single offset", 463), ("deposit single linear", 466)],
    [("withdraw single constant_product", 9584), ("withdraw single constant_price", 1641), ("withdraw single stable", 32580), ("withdraw single offset", 9641), ("withdraw single linear", 642)],
    [("create constant_product", 307), ("create constant_price", 642), ("create stable", 308), ("create offset", 309), ("create linear", 1002)],
];

#[derive(Clone)]
struct Params {
    op: usize,
    curve: Curve,
    fees: Fees,
    a: u64,
    b: u64,
    s: u64,
    side: bool,
    x: u64,
    keys: u64,
}
fn col(c: &Curve) -> usize {
    match c {
        Curve::Cp => 0,
        Curve::Price(_) => 1,
        Curve::Stable(_) => 2,
        Curve::Offset(_) => 3,
        Curve::Linear { .. } => 4,
    }
}
fn random(r: &mut Rng) -> Params {
    let curve = if r.chance(1, 4) { wild_curve(r) } else if r.chance(1, 3) { lin::params(r).curve() } else {
        let k = r.below(4);
        pools::curve(r, k)
    };
    let fees = if curve.is_linear() {
        Fees::linear()
    } else if r.chance(1, 4) {
        wild_fees(r)
    } else {
        Fees::random(r)
    };
    let a = raw64(r);
    let b = if r.chance(1, 2) { r.near(a) } else { raw64(r) };
    let s = if r.chance(1, 3) { r.near(a) } else { raw64(r) };
    let op = r.usize(7);
    let x = match r.below(3) {
        0 => raw64(r),
        1 => r.range(0, a),
        _ => r.range(0, s),
    };
    Params { op, curve, fees, a, b, s, side: r.chance(1, 2), x, keys: r.u64() }
}
fn tweak(r: &mut Rng, v: u64) -> u64 {
    match r.below(6) {
        0 => r.near(v),
        1 => v ^ (1 << r.below(64)),
        2 => v >> r.below(4),
        3 => v.saturating_mul(r.range(1, 9)),
        4 => raw64(r),
        _ => v.wrapping_add(r.range(0, v / 16 + 1)),
    }
}
fn mutate(r: &mut Rng, p: &Params) -> Params {
    let mut q = p.clone();
    for _ in 0..r.range(1, 2) {
        match r.below(6) {
            0 => q.a = tweak(r, q.a),
            1 => q.b = tweak(r, q.b),
            2 => q.s = tweak(r, q.s),
            3 | 4 => q.x = tweak(r, q.x),
            _ => {
                q.curve = match q.curve {
                    Curve::Cp => Curve::Cp,
                    Curve::Price(v) => Curve::Price(tweak(r, v)),
                    Curve::Stable(v) => Curve::Stable(tweak(r, v)),
                    Curve::Offset(v) => Curve::Offset(tweak(r, v)),
                    Curve::Linear { mut sn, mut sd, mut pn, mut pd } => {
                        let v = *r.pick(&[0, 1, 2, 3]);
                        let f = [&mut sn, &mut sd, &mut pn, &mut pd];
                        let n = tweak(r, *f[v]);
                        *f.into_iter().nth(v).unwrap() = n;
                        Curve::Linear { sn, sd, pn, pd }
                    }
                }
            }
        }
    }
    q
}
/// blocks executed, outcome
fn run(p: &Params) -> (u64, Outcome) {
    let mut k = Rng::new(p.keys, 26, 0);
    let r = &mut k;
    let mut w = World::new();
    if p.op == 6 {
        let (pool, dest) = w.prepare_pool(r, p.curve, p.fees, p.a, p.b, None);
        let entry = matches!(p.curve, Curve::Price(_) | Curve::Linear { .. });
        let c = super::create::lib_curve(&p.curve);
        let f = p.fees.lib();
        let ix = if entry { init_ix(&pool, dest) } else { Ix { program: pid(), metas: init_metas(&pool, dest), data: vec![] } };
        let t = blocks();
        let rec = if entry { w.l.exec(&ix) } else { w.l.exec_with(&ix, move |id, accts, _| Processor::process_initialize(id, f, c, accts, &None)) };
        return (blocks() - t, rec.outcome);
    }
    let (pi, _) = w.forge_pool(r, p.curve, p.fees, p.a, p.b, p.s, None);
    let pool = w.pools[pi].clone();
    let user = w.wallet(r);
    let mut acct = |r: &mut Rng, m| {
        let t = w.token(r, m, user, 0);
        t
    };
    let ta = acct(r, pool.mint_a);
    let tb = acct(r, pool.mint_b);
    let tp = acct(r, pool.pool_mint);
    w.set_amount(&ta, u64::MAX / 2);
    w.set_amount(&tb, u64::MAX / 2);
    w.set_amount(&tp, p.s);
    let (src, dst) = if p.side { (ta, tb) } else { (tb, ta) };
    let mut ix = match p.op {
        0 | 1 => swap_ix(&pool, user, src, dst, p.side, p.x, 0),
        2 => deposit_all_ix(&pool, user, ta, tb, tp, p.x, u64::MAX, u64::MAX),
        3 => withdraw_all_ix(&pool, user, tp, ta, tb, p.x, 0, 0),
        4 => deposit_single_ix(&pool, user, src, tp, p.x, 0),
        _ => withdraw_single_ix(&pool, user, tp, src, p.x, u64::MAX),
    };
    let t;
    let rec = if p.op == 1 {
        ix.metas.push(Meta { key: tp, signer: false, writable: true });
        let x = p.x;
        t = blocks();
        w.l.exec_with(&ix, |id, accts, _| Processor::process_swap(id, x, 0, accts))
    } else {
        t = blocks();
        w.l.exec(&ix)
    };
    (blocks() - t, rec.outcome)
}

fn c26(r: &mut Rng, o: &mut Obs, _i: u64) -> R {
    let mut p = random(r);
    let mut best = 0;
    for step in 0..24 {
        let q = if step == 0 { p.clone() } else { mutate(r, &p) };
        let (n, out) = run(&q);
        let (what, seen) = SEEN[q.op][col(&q.curve)];
        let h = u64::from_le_bytes(q.curve.params()[..8].try_into().unwrap());
        o.eval(true, &[q.op as u64, q.curve.type_byte() as u64, h, q.a, q.b, q.s, q.x]);
        o.max(what, n as f64);
        if step == 0 {
            o.n(["swap", "swap", "deposit all", "withdraw all", "deposit single", "withdraw single", "create"][q.op]);
        }
        o.n(if out.ok() { "accepted" } else { "refused" });
        if let Outcome::Panic(m) = &out {
            return viol("C26-abort", format!("{} panicked: {}", what, m));
        }
        let limit = if calibrating() { u64::MAX } else { seen * 7 / 4 + 300 };
        let ctx = || format!("{}: {} blocks for {:?} fees {:?} A={} B={} supply={} amount={}", what, n, q.curve, q.fees, q.a, q.b, q.s, q.x);
        if n > limit {
            return viol(format!("C26-{}", what.replace(' ', "-")), format!("{} (at most {} before)", ctx(), seen));
        }
        if n > best {
            if step > 0 {
                o.n("climbed");
            }
            best = n;
            if step == 23 {
                o.sample(ctx);
            }
            p = q;
        }
    }
    Ok(())
}

/// set when the table is measured anew
fn calibrating() -> bool {
    static C: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *C.get_or_init(|| std::env::var("VMON_CALIBRATE").is_ok())
}
