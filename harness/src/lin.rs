//! Exact arithmetic of the linear price line: F(b) = slope*b^2/2 + price0*b over rationals.
use crate::big::*;
use crate::rng::Rng;
use crate::world::Curve;

#[derive(Clone, Copy, Debug)]
pub struct Lin {
    pub sn: u64,
    pub sd: u64,
    pub pn: u64,
    pub pd: u64,
}
/// fraction bits of fixed-point positions
pub const K: usize = 80;

impl Lin {
    pub fn curve(&self) -> Curve {
        Curve::Linear { sn: self.sn, sd: self.sd, pn: self.pn, pd: self.pd }
    }
    pub fn of(c: &Curve) -> Lin {
        match *c {
            Curve::Linear { sn, sd, pn, pd } => Lin { sn, sd, pn, pd },
            _ => panic!("harness: not linear"),
        }
    }
    /// common denominator 2*sd*pd
    pub fn d(&self) -> U1024 {
        w(2) * w(self.sd as u128) * w(self.pd as u128)
    }
    /// F(b)*D*2^(2K), b in units of 2^-K
    pub fn f_num(&self, b: U1024) -> U1024 {
        w(self.sn as u128) * w(self.pd as u128) * b * b + ((w(2) * w(self.sd as u128) * w(self.pn as u128) * b) << K)
    }
    /// ceil(F(b)), b integer
    pub fn f_ceil(&self, b: u128) -> U1024 {
        let n = w(self.sn as u128) * w(self.pd as u128) * w(b) * w(b) + w(2) * w(self.sd as u128) * w(self.pn as u128) * w(b);
        ceil_div(n, self.d())
    }
    pub fn f_floor(&self, b: u128) -> U1024 {
        let n = w(self.sn as u128) * w(self.pd as u128) * w(b) * w(b) + w(2) * w(self.sd as u128) * w(self.pn as u128) * w(b);
        n / self.d()
    }
    /// floor / ceil of F at fixed-point b
    pub fn fk_floor(&self, b: U1024) -> U1024 {
        self.f_num(b) / (self.d() << (2 * K))
    }
    pub fn fk_ceil(&self, b: U1024) -> U1024 {
        ceil_div(self.f_num(b), self.d() << (2 * K))
    }
    /// A >= F(b) for fixed-point b
    pub fn covers(&self, a: U1024, b: U1024) -> bool {
        (a * self.d()) << (2 * K) >= self.f_num(b)
    }
    /// floor(F^-1(a) * 2^K), exact
    pub fn inv(&self, a: U1024) -> U1024 {
        if a.is_zero() {
            return a;
        }
        let sn = w(self.sn as u128);
        let sd = w(self.sd as u128);
        let pn = w(self.pn as u128);
        let pd = w(self.pd as u128);
        let j = 16usize;
        let disc = sd * sd * pn * pn + w(2) * sn * sd * pd * pd * a;
        let s = isqrt(disc << (2 * (K + j)));
        let sub = (sd * pn) << (K + j);
        let mut b = sat_sub(s, sub) / ((sn * pd) << j);
        while !self.covers(a, b) {
            b = b - U1024::one();
        }
        while self.covers(a, b + U1024::one()) {
            b = b + U1024::one();
        }
        b
    }
    pub fn slope(&self) -> f64 {
        self.sn as f64 / self.sd as f64
    }
    pub fn p0(&self) -> f64 {
        self.pn as f64 / self.pd as f64
    }
    pub fn price(&self, b: f64) -> f64 {
        self.slope() * b + self.p0()
    }
    /// documented precision of a position computed from vault balance a: nine significant digits of
    /// sqrt(p0^2 + 2*slope*a)/slope plus the 18-decimal resolution, in token B units (K-fixed)
    pub fn pos_err(&self, a: u128) -> U1024 {
        let m = self.slope();
        let e = self.p0();
        let a = a as f64;
        let s = (e * e + 2.0 * m * a).sqrt();
        let rel = s / m * 4.8e-10; // a little over 2^-31
        let arg = 8e-18f64;
        let sq = if s > 0.0 { (arg / s).min(arg.sqrt()) } else { arg.sqrt() };
        from_f64k(rel + (sq + 4e-18) / m)
    }
    /// a vault balance at which the square root argument sits at a power of two
    pub fn at_bit_boundary(&self, j: usize) -> Option<u64> {
        let sn = w(self.sn as u128);
        let sd = w(self.sd as u128);
        let pn = w(self.pn as u128);
        let pd = w(self.pd as u128);
        // e^2 + 2*m*a = 2^j / 1e18
        let lhs = (sd * pd * pd) << j;
        let one = w(1_000_000_000_000_000_000);
        let rhs = sd * pn * pn * one;
        if lhs <= rhs {
            return None;
        }
        let a = (lhs - rhs) / (w(2) * sn * pd * pd * one);
        if a.bits() > 63 {
            None
        } else {
            Some(a.low_u64())
        }
    }
}

pub fn params(r: &mut Rng) -> Lin {
    loop {
        let l = match r.below(8) {
            0 => Lin { sn: r.range(1, 10), sd: r.range(1, 1000), pn: r.range(0, 1000), pd: r.range(1, 100) },
            1 => Lin { sn: r.logpos(64), sd: r.logpos(60), pn: r.log64(64), pd: r.logpos(64) },
            2 | 3 => {
                // realistic: token amounts with decimals
                let sd = 10u64.pow(r.below(16) as u32);
                let pd = 10u64.pow(r.below(10) as u32);
                Lin { sn: r.range(1, 999), sd, pn: r.range(0, 99999), pd }
            }
            4 => Lin { sn: r.range(1, 9), sd: 10u64.pow(r.range(14, 18) as u32), pn: r.log64(40), pd: r.logpos(40) },
            5 => Lin { sn: r.logpos(50), sd: r.logpos(50), pn: 0, pd: r.logpos(30) },
            6 => Lin { sn: r.logpos(64), sd: r.logpos(8), pn: r.log64(60), pd: r.logpos(10) },
            _ => Lin { sn: r.logpos(32), sd: r.logpos(32), pn: r.log64(32), pd: r.logpos(32) },
        };
        // slope at least 1e-18
        if (l.sn as u128) * 1_000_000_000_000_000_000u128 >= l.sd as u128 {
            return l;
        }
    }
}
pub fn to_f64k(b: U1024) -> f64 {
    f(b) / 2f64.powi(K as i32)
}

pub fn from_f64k(x: f64) -> U1024 {
    if !(x > 0.0) {
        return U1024::zero();
    }
    let e = x.log2().floor() as i32 - 52;
    let mant = (x * 2f64.powi(-e)) as u64;
    let sh = e + K as i32;
    if sh >= 0 {
        U1024::from(mant) << (sh.min(700) as usize)
    } else {
        (U1024::from(mant) >> ((-sh) as usize)) + U1024::one()
    }
}
