//! Wide integers for the exact (independent) oracles.
#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct W(8); } // 512 bits

pub fn w(x: u128) -> W {
    W::from(x)
}
/// ceil(a / b)
pub fn ceil_div(a: W, b: W) -> W {
    let (q, r) = a.div_mod(b);
    if r.is_zero() { q } else { q + W::one() }
}
/// floor(sqrt(x)): Newton from above, started from a float estimate
pub fn isqrt(x: W) -> W {
    let bits = x.bits();
    if bits <= 100 {
        let v = x.as_u128();
        let mut r = (v as f64).sqrt() as u128;
        while r * r > v {
            r -= 1;
        }
        while (r + 1) * (r + 1) <= v {
            r += 1;
        }
        return W::from(r);
    }
    let sh = (bits - 100 + 1) / 2 * 2;
    let top = (x >> sh).as_u128();
    let est = ((top as f64).sqrt() * (1.0 + 1e-14)) as u128 + 1;
    let mut z = W::from(est) << (sh / 2);
    loop {
        let y = (z + x / z) >> 1;
        if y >= z {
            return z;
        }
        z = y;
    }
}
