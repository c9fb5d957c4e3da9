//! Wide integers used by the oracles, independent of the arithmetic of the code under test.
#![allow(clippy::all)]
uint::construct_uint! { pub struct U512(8); }
uint::construct_uint! { pub struct U1024(16); }
uint::construct_uint! { pub struct U2048(32); }

pub fn w(x: u128) -> U1024 {
    U1024::from(x)
}

/// floor square root
pub fn isqrt(x: U1024) -> U1024 {
    if x.is_zero() {
        return x;
    }
    let bits = x.bits();
    let mut r = U1024::one() << ((bits + 1) / 2);
    loop {
        let n = (r + x / r) >> 1;
        if n >= r {
            return r;
        }
        r = n;
    }
}
pub fn isqrt2048(x: U2048) -> U2048 {
    if x.is_zero() {
        return x;
    }
    let bits = x.bits();
    let mut r = U2048::one() << ((bits + 1) / 2);
    loop {
        let n = (r + x / r) >> 1;
        if n >= r {
            return r;
        }
        r = n;
    }
}
pub fn ceil_div(a: U1024, b: U1024) -> U1024 {
    (a + b - U1024::one()) / b
}
pub fn to_u128(a: U1024) -> Option<u128> {
    if a.bits() > 128 {
        None
    } else {
        Some(a.as_u128())
    }
}
pub fn mul_div_floor(a: u128, b: u128, c: u128) -> U1024 {
    w(a) * w(b) / w(c)
}
pub fn mul_div_ceil(a: u128, b: u128, c: u128) -> U1024 {
    ceil_div(w(a) * w(b), w(c))
}
pub fn sat_sub(a: U1024, b: U1024) -> U1024 {
    if a > b {
        a - b
    } else {
        U1024::zero()
    }
}
/// approximate f64 of a wide integer
pub fn f(a: U1024) -> f64 {
    let b = a.bits();
    if b <= 64 {
        return a.low_u64() as f64;
    }
    let sh = b - 64;
    ((a >> sh).low_u64() as f64) * 2f64.powi(sh as i32)
}
