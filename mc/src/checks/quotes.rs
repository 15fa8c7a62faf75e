//! C18: exact swap formulas of the constant-price, constant-product and offset curves.
use super::common::*;
use crate::report::*;
use crate::world::*;
use serde_json::json;

pub fn c18(ctx: &Ctx) {
    let small: u64 = if ctx.thorough { 24 } else { 11 };
    let mut curves = vec![Curve::Product];
    for p in [1u64, 2, 3, 7, 10, 1000, 1 << 32, u64::MAX] {
        curves.push(Curve::Price { p });
    }
    for off in [1u64, 2, 5, 10, 1000, 1 << 40, u64::MAX] {
        curves.push(Curve::Offset { off });
    }
    let fees: Vec<Fee> = FEES.to_vec();
    let lat = lattice(3, ctx.thorough);
    let lat = if ctx.thorough { thin(&lat, 3) } else { thin(&lat, 7) };
    let mut jobs: Vec<(Cfg, bool, u64)> = vec![];
    for &curve in &curves {
        for &fee in &fees {
            for a in 0..=small {
                jobs.push((Cfg { curve, fee }, true, a));
            }
            for &a in &lat {
                jobs.push((Cfg { curve, fee }, false, a));
            }
        }
    }
    ctx.note("bounds", json!({"curves": curves.len(), "fee_settings": fees.len(), "dense": format!("reserves and amounts 0..={}", small),
        "lattice": lat.len(), "further_amounts": "every size in several residue classes, and amounts related to the reserves", "pool_supply": "1e9"}));
    par(ctx, jobs.len(), |i, t| {
        let (cfg, dense, a) = jobs[i];
        let f = Funds { va: 1000, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let dom: Vec<u64> = if dense { (0..=small).collect() } else { lat.clone() };
        for &b in &dom {
            let mut am = dom.clone();
            if !dense {
                am.extend(shapes());
                am.extend(related(a, b, 1_000_000_000));
                am.sort();
                am.dedup();
            }
            let mut s = set_pool(&mut w, a, b, 1_000_000_000);
            t.states += 1;
            for &x in &am {
                for a2b in [true, false] {
                    let u = &w.users[ALICE];
                    let (src, other) = if a2b { (u.a, u.b) } else { (u.b, u.a) };
                    s[src] = x;
                    s[other] = 0;
                    lockstep(ctx, t, &mut w, &s, &Op::Swap { u: ALICE, a2b, amt: x, min: 0, host: false });
                }
            }
        }
        if i % 97 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "vault_a": a, "vault_b_and_amount": dom}));
        }
    });
}
