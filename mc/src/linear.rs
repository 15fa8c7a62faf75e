//! Exact arithmetic for the linear-price bonding curve, straight from the documented definition
//! (price of the b-th bonded token = slope*b + initial; collateral locked = the integral of that),
//! free of square roots: every comparison is squared and done on 512-bit integers.
use crate::big::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lin {
    pub sn: u64,
    pub sd: u64,
    pub pn: u64,
    pub pd: u64,
}

impl Lin {
    /// common denominator c, P = c*price, S = c*slope
    pub fn psc(&self) -> (W, W, W) {
        let (sn, sd, pn, pd) = (w(self.sn as u128), w(self.sd as u128), w(self.pn as u128), w(self.pd as u128));
        (pn * sd, sn * pd, sd * pd)
    }
    /// R(A) = P^2 + 2*S*c*A ; pos(A) = (sqrt(R) - P)/S is the bonded amount whose integral is A
    pub fn r(&self, a: u128) -> W {
        let (p, s, c) = self.psc();
        p * p + W::from(2) * s * c * w(a)
    }
    /// 2c * integral(b) = S b^2 + 2 P b
    pub fn i2c(&self, b: u128) -> W {
        let (p, s, _) = self.psc();
        s * w(b) * w(b) + W::from(2) * p * w(b)
    }
    /// collateral `a` >= integral(b)
    pub fn covers(&self, a: u128, b: u128) -> bool {
        let (_, _, c) = self.psc();
        W::from(2) * c * w(a) >= self.i2c(b)
    }
    /// pos(a + x) >= pos(a) + n
    pub fn buy_ok(&self, a: u128, x: u128, n: u128) -> bool {
        let (_, s, c) = self.psc();
        let lhs = W::from(2) * c * w(x);
        let sq = s * w(n) * w(n);
        if lhs < sq {
            return false;
        }
        let rhs = lhs - sq;
        W::from(4) * w(n) * w(n) * self.r(a) <= rhs * rhs
    }
    /// pos(a - out) >= pos(a) - y
    pub fn sell_ok(&self, a: u128, y: u128, out: u128) -> bool {
        let (p, s, c) = self.psc();
        let r = self.r(a);
        let t = s * w(y) + p;
        if t * t >= r {
            return out <= a;
        }
        let lhs = W::from(2) * c * w(out) + s * w(y) * w(y);
        lhs * lhs <= W::from(4) * w(y) * w(y) * r
    }
}

/// fractional bits of pos_lo / pos_hi
pub const F: usize = 64;
impl Lin {
    /// Bounds (scaled by 2^F) on the bonded position for collateral `a` that any evaluation carried
    /// out in 18-decimal fixed point (3 ulp on the radicand, 1 ulp on the price, 3 ulp on the
    /// result before dividing by the slope, 1 ulp on the position itself) must respect.
    fn pos(&self, a: u128, up: bool) -> W {
        let (p, s, c) = self.psc();
        let one18 = w(1_000_000_000_000_000_000);
        let dr = ceil_div(W::from(3) * c * c, one18);
        let dp = ceil_div(W::from(4) * (c << F), one18);
        let r = self.r(a);
        let (r2, extra) = if up { (r + dr, W::one()) } else { (if r > dr { r - dr } else { W::zero() }, W::zero()) };
        let root = isqrt(r2 << (2 * F)) + extra;
        let pf = p << F;
        let ulp = ceil_div(W::one() << F, one18);
        if up {
            (root + dp).saturating_sub(pf) / s + ulp
        } else {
            (root.saturating_sub(pf + dp) / s).saturating_sub(ulp)
        }
    }
    pub fn pos_lo(&self, a: u128) -> W { self.pos(a, false) }
    pub fn pos_hi(&self, a: u128) -> W { self.pos(a, true) }
    /// buy_ok up to the 18-decimal resolution of the program's arithmetic
    pub fn buy_ok_res(&self, a: u128, x: u128, n: u128) -> bool {
        self.buy_ok(a, x, n) || self.pos_hi(a + x) >= self.pos_lo(a) + (w(n) << F)
    }
    pub fn sell_ok_res(&self, a: u128, y: u128, out: u128) -> bool {
        out <= a && (self.sell_ok(a, y, out) || self.pos_hi(a - out) + (w(y) << F) >= self.pos_lo(a))
    }
}

impl Lin {
    pub fn i2c_w(&self, b: W) -> W {
        let (p, s, _) = self.psc();
        s * b * b + W::from(2) * p * b
    }
    /// Position (scaled by 2^F) for collateral `a` when the square root carries a relative error
    /// of at most 2^-k on top of the 18-decimal resolution.
    pub fn pos_eps(&self, a: u128, up: bool, k: u32) -> W {
        let (p, s, c) = self.psc();
        let one18 = w(1_000_000_000_000_000_000);
        let dr = ceil_div(W::from(3) * c * c, one18);
        let dp = ceil_div(W::from(4) * (c << F), one18);
        let r = self.r(a);
        let (r2, extra) = if up { (r + dr, W::one()) } else { (if r > dr { r - dr } else { W::zero() }, W::zero()) };
        let root = isqrt(r2 << (2 * F)) + extra;
        let e = (root >> k as usize) + W::one();
        let pf = p << F;
        let ulp = ceil_div(W::one() << F, one18);
        if up {
            (root + e + dp).saturating_sub(pf) / s + ulp
        } else {
            (root.saturating_sub(e).saturating_sub(pf + dp) / s).saturating_sub(ulp)
        }
    }
}
