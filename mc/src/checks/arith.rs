//! C16: the decimal arithmetic all linear prices are computed with: every operation against its
//! exact value on 512-bit integers, over a lattice that has every size of number.
use crate::big::*;
use crate::report::*;
use serde_json::json;
use spl_math::uint::U256;
use token_bonding_curve::dfs_precise_number::DFSPreciseNumber as D;

/// one, in the smallest unit
const ONE: u128 = 1_000_000_000_000_000_000;

fn up(x: U256) -> W {
    let mut b = [0u8; 32];
    x.to_little_endian(&mut b);
    W::from_little_endian(&b)
}
fn down(x: W) -> Option<U256> {
    if x.bits() > 256 {
        return None;
    }
    let mut b = [0u8; 64];
    x.to_little_endian(&mut b);
    Some(U256::from_little_endian(&b[..32]))
}
fn dfs(x: U256) -> D {
    let mut d = D::new(0).unwrap();
    d.value = x;
    d
}
fn top() -> W {
    (W::one() << 256) - W::one()
}
fn safe<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("{} panics", what))
}
fn dist(a: W, b: W) -> W {
    if a > b {
        a - b
    } else {
        b - a
    }
}

fn values(thorough: bool) -> Vec<U256> {
    let mut v: Vec<W> = (0..if thorough { 24u128 } else { 6 }).map(w).collect();
    let one = w(ONE);
    let mut around = |x: W, ds: &[i64]| {
        for &d in ds {
            let y = if d < 0 {
                if x < w((-d) as u128) {
                    continue;
                }
                x - w((-d) as u128)
            } else {
                x + w(d as u128)
            };
            if y <= top() {
                v.push(y);
            }
        }
    };
    let near: &[i64] = if thorough { &[-2, -1, 0, 1, 2, 12345] } else { &[-1, 0, 1] };
    for k in 0..=256 {
        if thorough || k % 3 == 0 || [1, 31, 32, 61, 62, 64, 65, 127, 128, 188, 190, 194, 196, 197, 254, 255, 256].contains(&k) {
            around(W::one() << k, near);
        }
    }
    let mut p = W::one();
    for k in 0..77 {
        if thorough || k % 2 == 0 || k == 17 || k == 19 {
            around(p, near);
        }
        p = p * w(10);
    }
    // whole numbers, halves, and the middle of every decade
    for n in [1u128, 2, 3, 7, 10, 99, 1000, 65537, 998_244_353, 1 << 53, u64::MAX as u128, 1 << 64, 1 << 100, u128::MAX - 1, u128::MAX] {
        around(w(n) * one, near);
        around(w(n) * one + one / w(2), near);
        around(w(n) * one + one / w(3), &[0]);
        around(w(n) * one / w(7), &[0]);
    }
    // perfect squares and their neighbours, at several sizes
    for n in [3u128, 1000, 46341, 65535, 65536, 3_037_000_499, 4_294_967_295, 4_294_967_296, 1 << 50, 10u128.pow(18) - 1] {
        for sh in [0usize, 2, 20, 64, 100] {
            around((w(n) * w(n)) << sh, near);
        }
    }
    around(top(), &[0, -1, -2]);
    around(top() - one / w(2), &[0, -1, 1]);
    around(top() - one, &[0, -1, 1, 2]);
    v.sort();
    v.dedup();
    v.into_iter().filter_map(down).collect()
}

fn unary(x: U256) -> Result<u64, String> {
    let d = dfs(x);
    let v = up(x);
    let one = w(ONE);
    let (q, r) = v.div_mod(one);
    let mut n = 0;
    // whole numbers
    let fl = safe("floor", || d.floor())?.ok_or("floor refuses")?;
    if up(fl.value) != q * one {
        return Err(format!("floor gives {}", fl.value));
    }
    let ce = (if r.is_zero() { q } else { q + W::one() }) * one;
    match safe("ceiling", || d.ceiling())? {
        Some(c) if up(c.value) == ce => {}
        None if v + one > top() => {}
        c => return Err(format!("ceiling gives {:?} instead of {}", c.map(|c| c.value), ce)),
    }
    let near = (v + w(ONE / 2)) / one;
    match safe("conversion to an integer", || d.to_imprecise())? {
        Some(i) if w(i) == near => {}
        None if near > w(u128::MAX) => {}
        i => return Err(format!("converted to the integer {:?} instead of {}", i, near)),
    }
    // 12 decimals
    match safe("conversion to 12 decimals", || d.to_spl_precise_number())? {
        Some(s) => {
            if up(s.value) > v / w(1_000_000) + W::one() || up(s.value) < v / w(1_000_000) {
                return Err(format!("converted to 12 decimals as {} instead of {}", s.value, v / w(1_000_000)));
            }
        }
        None if q > w(u128::MAX) => {}
        None => return Err("not converted to 12 decimals".into()),
    }
    n += 4;
    // square root: at most (rounded down) or at least (rounded up) the exact one, to 9 digits
    let sq = v * one; // square of the root, in units
    let lo = safe("square root", || d.sqrt_u64(false))?.ok_or("square root refused")?;
    let hi = safe("square root rounded up", || d.sqrt_u64(true))?.ok_or("square root (rounded up) refused")?;
    let (l, h) = (up(lo.value), up(hi.value));
    if l * l > sq {
        return Err(format!("square root rounded down is {}, above the exact one", lo.value));
    }
    if h * h < sq {
        return Err(format!("square root rounded up is {}, below the exact one", hi.value));
    }
    let exact = isqrt(sq); // floor
    let tol = (exact >> 30) + w(2);
    if dist(l, exact) > tol || dist(h, exact) > tol {
        return Err(format!("square root {} / {} instead of {}", lo.value, hi.value, exact));
    }
    n += 2;
    // perfect squares whose root fits are exact both ways
    Ok(n)
}

fn binary(x: U256, y: U256) -> Result<u64, String> {
    let (a, b) = (dfs(x), dfs(y));
    let (p, q) = (up(x), up(y));
    let one = w(ONE);
    let show = |z: &Option<D>| z.as_ref().map(|z| z.value.to_string());
    let sum = safe("addition", || a.checked_add(&b))?;
    if sum.as_ref().map(|z| up(z.value)) != Some(p + q).filter(|z| *z <= top()) {
        return Err(format!("sum is {:?}", show(&sum)));
    }
    let dif = safe("subtraction", || a.checked_sub(&b))?;
    if dif.as_ref().map(|z| up(z.value)) != if p >= q { Some(p - q) } else { None } {
        return Err(format!("difference is {:?}", show(&dif)));
    }
    let (us, neg) = safe("unsigned subtraction", || a.unsigned_sub(&b))?;
    if up(us.value) != dist(p, q) || neg != (p < q) {
        return Err(format!("unsigned difference is {} {}", us.value, neg));
    }
    if a.less_than(&b) != (p < q) || a.greater_than(&b) != (p > q) || a.less_than_or_equal(&b) != (p <= q) || a.greater_than_or_equal(&b) != (p >= q) || (a == b) != (p == q) {
        return Err("comparison".into());
    }
    if a.almost_eq(&b, U256::from(ONE)) != (dist(p, q) < one) {
        return Err("approximate comparison".into());
    }
    // product: to half a unit, or (outside the range of the exact product) to 2^-60 and never above
    let exact = p * q;
    let half = w(ONE / 2);
    match safe("multiplication", || a.checked_mul(&b))? {
        Some(z) => {
            let r = up(z.value) * one;
            let tol = if exact + half <= top() { half } else { (exact >> 60) + one };
            if dist(r, exact) > tol || (exact > top() && r > exact) {
                return Err(format!("product is {} instead of {}", z.value, exact / one));
            }
        }
        None if exact / one > top() || (exact <= top() && exact + half > top()) => {}
        None => return Err("product refused".into()),
    }
    // quotient: of a numerator known to half a unit, to one unit
    match safe("division", || a.checked_div(&b))? {
        None if q.is_zero() => {}
        Some(_) if q.is_zero() => return Err("divided by zero".into()),
        Some(z) => {
            let num = p * one;
            let r = up(z.value);
            if num + half <= top() {
                let lo = num / q;
                let hi = (num + half) / q;
                if r > hi + W::one() || r + W::one() < lo {
                    return Err(format!("quotient is {} instead of {}", z.value, lo));
                }
            } else if r * q > (p + half) * one {
                return Err(format!("quotient is {} and above {}", z.value, num / q));
            }
        }
        // only for numerators beyond anything made of token amounts
        None if p > (W::one() << 190) => {}
        None => return Err("quotient refused".into()),
    }
    Ok(6)
}

pub fn c16(ctx: &Ctx) {
    let vals = values(ctx.thorough);
    let n = vals.len();
    par(ctx, n, |i, t| {
        t.states += 1;
        match unary(vals[i]) {
            Ok(k) => {
                t.transitions += k;
                t.traces += 1;
            }
            Err(e) => ctx.violation(&super::common::classify(&e), json!({"number": vals[i].to_string(), "what": e})),
        }
        for j in 0..n {
            match binary(vals[i], vals[j]) {
                Ok(k) => {
                    t.transitions += k;
                    t.traces += 1;
                }
                Err(e) => ctx.violation(&super::common::classify(&e), json!({"left": vals[i].to_string(), "right": vals[j].to_string(), "what": e})),
            }
        }
    });
    // every small number, every number just below and above a whole one, every small fraction
    let lim: u128 = if ctx.thorough { 1 << 25 } else { 1 << 21 };
    let chunk = lim / 256;
    par(ctx, 256, |c, t| {
        for v in c as u128 * chunk..(c as u128 + 1) * chunk {
            for x in [U256::from(v), U256::from(v) * U256::from(ONE), U256::from(v) * U256::from(ONE) + U256::from(ONE - 1), U256::from(v) << 47, U256::from(v) << 130] {
                t.states += 1;
                match unary(x) {
                    Ok(k) => {
                        t.transitions += k;
                        t.traces += 1;
                    }
                    Err(e) => ctx.violation(&super::common::classify(&e), json!({"number": x.to_string(), "what": e})),
                }
            }
        }
    });
    let f: u128 = if ctx.thorough { 1500 } else { 500 };
    par(ctx, f as usize, |a, t| {
        for b in 1..=f {
            for (x, y) in [(a as u128 * ONE, b * ONE), (a as u128 * ONE / b, b * ONE), (a as u128, b)] {
                match binary(U256::from(x), U256::from(y)) {
                    Ok(k) => {
                        t.states += 1;
                        t.transitions += k;
                        t.traces += 1;
                    }
                    Err(e) => ctx.violation(&super::common::classify(&e), json!({"left": x.to_string(), "right": y.to_string(), "what": e})),
                }
            }
        }
    });
    // integers of every size go in and out unchanged
    let mut t = Tally::default();
    for k in 0..128u32 {
        for d in 0..3u128 {
            for x in [(1u128 << k).wrapping_add(d), (1u128 << k).wrapping_sub(d), u128::MAX - (1u128 << k) + d.min(1)] {
                t.states += 1;
                t.transitions += 2;
                t.traces += 1;
                let ok = D::new(x).map(|v| up(v.value) == w(x) * w(ONE) && v.to_imprecise() == Some(x)).unwrap_or(false);
                if !ok {
                    ctx.violation("an integer is not represented exactly", json!({ "integer": x.to_string() }));
                }
            }
        }
    }
    ctx.add(&t);
    ctx.note("bounds", json!({"lattice": n, "pairs": n * n, "small_numbers": lim.to_string(), "small_fractions": f.to_string()}));
    ctx.sample(json!({"lattice_examples": vals.iter().step_by(n / 8).map(|v| v.to_string()).collect::<Vec<_>>()}));
}
