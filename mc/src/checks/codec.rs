//! C14: a pool's record can be read back exactly as it was written, and only by its documented
//! layout; anything that is not a complete record of a live pool is not taken for one.
use super::common::*;
use super::init::Setup;
use super::ledger::BIG;
use crate::report::*;
use crate::world::*;
use serde_json::json;
use solana_program::{program_pack::Pack, pubkey::Pubkey};
use token_bonding_curve::curve::base::SwapCurve;
use token_bonding_curve::curve::fees::Fees;
use token_bonding_curve::state::{SwapState, SwapV1, SwapVersion};

const LEN: usize = 324;
const TYPE_AT: usize = 291;

#[derive(Clone, Copy)]
struct Rec {
    bump: u8,
    keys: [Pubkey; 7],
    fee: Fee,
    curve: Curve,
}
impl Rec {
    fn real(&self) -> SwapV1 {
        SwapV1 {
            is_initialized: true,
            bump_seed: self.bump,
            token_program_id: self.keys[0],
            token_a: self.keys[1],
            token_b: self.keys[2],
            pool_mint: self.keys[3],
            token_a_mint: self.keys[4],
            token_b_mint: self.keys[5],
            pool_fee_account: self.keys[6],
            fees: self.fee.real(),
            swap_curve: self.curve.real(),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![1u8, 1, self.bump];
        for k in &self.keys {
            v.extend_from_slice(&k.to_bytes());
        }
        for x in self.fee.list() {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.extend_from_slice(&self.curve.packed());
        v
    }
}

/// the documented layout, read independently; the curve's unused bytes do not matter
fn parse(d: &[u8]) -> Option<Rec> {
    if d.len() != LEN || d[0] != 1 || d[1] != 1 {
        return None;
    }
    let u = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let k = |i: usize| Pubkey::new_from_array(d[3 + 32 * i..35 + 32 * i].try_into().unwrap());
    let f = |i: usize| (u(227 + 16 * i), u(235 + 16 * i));
    let c = TYPE_AT + 1;
    let curve = match d[TYPE_AT] {
        0 => Curve::Product,
        1 => Curve::Price { p: u(c) },
        2 => Curve::Stable { amp: u(c) },
        3 => Curve::Offset { off: u(c) },
        30 => Curve::Linear { sn: u(c), sd: u(c + 8), pn: u(c + 16), pd: u(c + 24) },
        _ => return None,
    };
    Some(Rec { bump: d[2], keys: [k(0), k(1), k(2), k(3), k(4), k(5), k(6)], fee: Fee { trade: f(0), owner: f(1), wd: f(2), host: f(3) }, curve })
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "the program panics on this record".to_string())
}

fn same(s: &dyn SwapState, r: &Rec) -> Result<(), String> {
    let f = s.fees();
    let fees = [
        f.trade_fee_numerator,
        f.trade_fee_denominator,
        f.owner_trade_fee_numerator,
        f.owner_trade_fee_denominator,
        f.owner_withdraw_fee_numerator,
        f.owner_withdraw_fee_denominator,
        f.host_fee_numerator,
        f.host_fee_denominator,
    ];
    if fees != r.fee.list() {
        return Err(format!("fees read as {:?}", fees));
    }
    if s.bump_seed() != r.bump {
        return Err("bump seed read wrongly".into());
    }
    let keys = [s.token_program_id(), s.token_a_account(), s.token_b_account(), s.pool_mint(), s.token_a_mint(), s.token_b_mint(), s.pool_fee_account()];
    for i in 0..7 {
        if *keys[i] != r.keys[i] {
            return Err(format!("address number {} read wrongly", i));
        }
    }
    if s.swap_curve().curve_type as u8 != r.curve.packed()[0] {
        return Err("curve type read wrongly".into());
    }
    // the parameters in effect, seen through the curve's own representation and its text form
    let mut v = [0u8; 33];
    s.swap_curve().pack_into_slice(&mut v);
    if v != r.curve.packed() || format!("{:?}", s.swap_curve()) != format!("{:?}", r.curve.real()) {
        return Err("curve parameters read wrongly".into());
    }
    if !s.is_initialized() {
        return Err("read as not initialized".into());
    }
    Ok(())
}

/// What the program makes of an arbitrary byte string.
fn judge_bytes(d: &[u8]) -> Result<bool, String> {
    let want = parse(d);
    let live = guarded(|| SwapVersion::is_initialized(d))?;
    if live != want.is_some() {
        return Err(format!("{} a live pool", if live { "taken for" } else { "not taken for" }));
    }
    match (guarded(|| SwapVersion::unpack(d))?, &want) {
        (Err(_), None) => Ok(false),
        (Ok(_), None) => Err("read although it is no record of a live pool".into()),
        (Err(e), Some(_)) => Err(format!("a valid record is refused: {:?}", e)),
        (Ok(s), Some(r)) => {
            same(&*s, r)?;
            // written again it is the same record
            let v1 = guarded(|| SwapV1::unpack(&d[1..]))?.map_err(|e| format!("{:?}", e))?;
            let mut out = vec![0u8; LEN];
            SwapVersion::pack(SwapVersion::SwapV1(v1), &mut out).map_err(|e| format!("{:?}", e))?;
            if out != r.bytes() {
                return Err("written back differently".into());
            }
            Ok(true)
        }
    }
}

fn write_read(r: &Rec) -> Result<(), String> {
    // old contents of the buffer must not shine through where the record has a value
    for fill in [0u8, 0xff] {
        let mut out = vec![fill; LEN];
        SwapVersion::pack(SwapVersion::SwapV1(r.real()), &mut out).map_err(|e| format!("{:?}", e))?;
        let want = r.bytes();
        let used = TYPE_AT
            + 1
            + match r.curve {
                Curve::Product => 0,
                Curve::Linear { .. } => 32,
                _ => 8,
            };
        if out[..used] != want[..used] {
            let at = (0..used).find(|i| out[*i] != want[*i]);
            return Err(format!("written differently from the layout (byte {:?})", at));
        }
        judge_bytes(&out)?;
    }
    // pieces on their own
    let mut f = [0u8; 64];
    r.fee.real().pack_into_slice(&mut f);
    if Fees::unpack_from_slice(&f).map_err(|e| format!("{:?}", e))? != r.fee.real() {
        return Err("fees are not read back".into());
    }
    let mut c = [0u8; 33];
    r.curve.real().pack_into_slice(&mut c);
    if SwapCurve::unpack_from_slice(&c).map_err(|e| format!("{:?}", e))? != r.curve.real() {
        return Err("curve is not read back".into());
    }
    Ok(())
}

const CURVES: [Curve; 5] = [
    Curve::Product,
    Curve::Price { p: 0x0102_0304_0506_0708 },
    Curve::Stable { amp: 0x1112_1314_1516_1718 },
    Curve::Offset { off: 0x2122_2324_2526_2728 },
    Curve::Linear { sn: 0x3132_3334_3536_3738, sd: 0x4142_4344_4546_4748, pn: 0x5152_5354_5556_5758, pd: 0x6162_6364_6566_6768 },
];
fn base(curve: Curve) -> Rec {
    let mut keys = [Pubkey::default(); 7];
    for (i, k) in keys.iter_mut().enumerate() {
        *k = key(&format!("codec{}", i));
    }
    let f = |i: u64| (0x0101_0101_0101_0101 * i, 0x1001_0203_0405_0607 * i);
    Rec { bump: 251, keys, fee: Fee { trade: f(1), owner: f(2), wd: f(3), host: f(4) }, curve }
}
/// the 12 numbers a record can hold
fn set_num(r: &mut Rec, i: usize, x: u64) -> bool {
    let fee = match i / 2 {
        0 => &mut r.fee.trade,
        1 => &mut r.fee.owner,
        2 => &mut r.fee.wd,
        3 => &mut r.fee.host,
        _ => {
            match (&mut r.curve, i - 8) {
                (Curve::Price { p: y }, 0) | (Curve::Stable { amp: y }, 0) | (Curve::Offset { off: y }, 0) => *y = x,
                (Curve::Linear { sn, .. }, 0) => *sn = x,
                (Curve::Linear { sd, .. }, 1) => *sd = x,
                (Curve::Linear { pn, .. }, 2) => *pn = x,
                (Curve::Linear { pd, .. }, 3) => *pd = x,
                _ => return false,
            }
            return true;
        }
    };
    if i % 2 == 0 {
        fee.0 = x
    } else {
        fee.1 = x
    }
    true
}

pub fn c14(ctx: &Ctx) {
    let fail = |what: &str, e: String, case: serde_json::Value| ctx.violation(&format!("{}: {}", what, classify(&e)), json!({"case": case, "what": e}));
    // every number over the whole lattice, and every pair of numbers over a coarser one
    let mut vals = lattice(if ctx.thorough { 300 } else { 64 }, true);
    for k in 0..64 {
        vals.push(1 << k);
        vals.push(!(1 << k));
    }
    for b in 0..8 {
        for x in 0..256u64 {
            vals.push(x << (8 * b));
        }
    }
    vals.sort();
    vals.dedup();
    let pairs = thin(&vals, if ctx.deep { 5 } else if ctx.thorough { 24 } else { 120 });
    par(ctx, 5 * 12 * 12, |n, t| {
        let (c, i, j) = (n / 144, n / 12 % 12, n % 12);
        let mut run = |r: &Rec, t: &mut Tally| {
            t.states += 1;
            t.transitions += 3;
            t.traces += 1;
            if let Err(e) = write_read(r) {
                fail("record", e, json!({"fees": format!("{:?}", r.fee), "curve": format!("{:?}", r.curve)}));
            }
        };
        if i == j {
            for &x in &vals {
                let mut r = base(CURVES[c]);
                if !set_num(&mut r, i, x) {
                    return;
                }
                run(&r, t);
            }
        } else if i < j {
            for &x in &pairs {
                for &y in &pairs {
                    let mut r = base(CURVES[c]);
                    if !set_num(&mut r, i, x) || !set_num(&mut r, j, y) {
                        return;
                    }
                    run(&r, t);
                }
            }
        }
    });
    // every single-byte change of a record; every two-byte change that involves the header or the
    // curve type; every length
    par(ctx, 5 * LEN, |n, t| {
        let (c, at) = (n / LEN, n % LEN);
        let b = base(CURVES[c]).bytes();
        let partners: Vec<usize> = if at < 3 || at == TYPE_AT {
            if ctx.thorough { (0..LEN).collect() } else { vec![0, 1, 2, 3, 226, 227, 290, 291, 292, 299, 300, 323] }
        } else {
            vec![at]
        };
        for x in 0..=255u8 {
            for &q in &partners {
                for y in if q == at { vec![x] } else { vec![0, 1, 2, 30, 255, b[q] ^ 0x80] } {
                    let mut d = b.clone();
                    d[q] = y;
                    d[at] = x;
                    t.states += 1;
                    t.transitions += 2;
                    match judge_bytes(&d) {
                        Ok(true) => t.traces += 1,
                        Ok(false) => t.bump("records_refused"),
                        Err(e) => fail("changed bytes", e, json!({"curve": format!("{:?}", CURVES[c]), "bytes": [[at, x], [q, y]]})),
                    }
                }
            }
        }
    });
    par(ctx, 5 * 700, |n, t| {
        let (c, len) = (n / 700, n % 700);
        for fill in [0u8, 1, 2, 0xff] {
            for keep in [true, false] {
                let mut d = vec![fill; len];
                if keep {
                    let b = base(CURVES[c]).bytes();
                    let k = len.min(LEN);
                    d[..k].copy_from_slice(&b[..k]);
                }
                t.states += 1;
                t.transitions += 2;
                match judge_bytes(&d) {
                    Ok(true) => t.traces += 1,
                    Ok(false) => t.bump("records_refused"),
                    Err(e) => fail("length", e, json!({"length": len, "fill": fill, "keep": keep})),
                }
            }
        }
    });
    live_pools(ctx);
    ctx.note("bounds", json!({"values_per_number": vals.len(), "values_per_pair": pairs.len(), "byte_changes": "all 324 positions x 256 values x 5 curves", "lengths": "0..699"}));
    ctx.sample(json!({"record": base(CURVES[4]).bytes()[..16].to_vec()}));
}

/// The same at the program's surface: a pool whose record is damaged in a way that makes it no
/// record of a live pool takes no operation at all, and nothing moves.
fn live_pools(ctx: &Ctx) {
    let cs = [Curve::Product, Curve::Price { p: 3 }, Curve::Stable { amp: 100 }, Curve::Offset { off: 5000 }, Curve::Linear { sn: 1, sd: 1000, pn: 1, pd: 10 }];
    par(ctx, cs.len() * 4, |n, t| {
        let curve = cs[n / 4];
        let at = [0usize, 1, 2, TYPE_AT][n % 4];
        let lin = matches!(curve, Curve::Linear { .. });
        let cfg = Cfg { curve, fee: if lin { NOFEE } else { FEES[2] } };
        let f = Funds { va: if lin { 0 } else { 100_000 }, vb: 100_000, a: [BIG >> 4; 3], b: [BIG >> 4; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        if lin {
            let _ = w.run(0, &Op::Swap { u: BOB, a2b: true, amt: 40, min: 0, host: false });
        }
        let lp = w.get(w.users[ALICE].lp) / 10;
        let ops = [
            Op::Swap { u: ALICE, a2b: true, amt: 30, min: 0, host: false },
            Op::Swap { u: ALICE, a2b: false, amt: 30, min: 0, host: false },
            Op::Swap { u: ALICE, a2b: true, amt: 30, min: 0, host: true },
            Op::DepAll { u: ALICE, lp, max_a: BIG, max_b: BIG },
            Op::WdAll { u: ALICE, lp, min_a: 0, min_b: 0 },
            Op::DepOne { u: ALICE, a: true, amt: 50, min_lp: 0 },
            Op::WdOne { u: ALICE, a: true, amt: 50, max_lp: BIG },
        ];
        let good = w.bank.clone();
        let p = w.pools[0];
        for x in 0..=255u8 {
            let old = good.accts[p.swap].data[at];
            if x == old || (at == TYPE_AT && [0, 1, 2, 3, 30].contains(&x)) {
                continue;
            }
            for op in &ops {
                w.bank = good.clone();
                w.bank.accts[p.swap].data[at] = x;
                t.states += 1;
                t.transitions += 1;
                if w.run(0, op).is_ok() {
                    ctx.violation("an operation on a damaged record is accepted", json!({"curve": format!("{:?}", curve), "byte": at, "value": x, "op": format!("{:?}", op)}));
                } else {
                    t.bump("operations_refused");
                }
            }
        }
        // and the undamaged one takes them
        let mut ok = 0;
        for op in &ops {
            w.bank = good.clone();
            t.transitions += 1;
            if w.run(0, op).is_ok() {
                ok += 1;
                t.traces += 1;
            }
        }
        if ok < 3 {
            ctx.violation("an undamaged pool refuses operations", json!({"curve": format!("{:?}", curve)}));
        }
    });
    // a short or long account is no pool and no new pool either
    par(ctx, 2, |n, t| {
        for len in (0..=340usize).chain([648]) {
            let mut s = Setup::new([Curve::Product, Curve::Linear { sn: 1, sd: 200_000_000, pn: 1, pd: 50 }][n], NOFEE, 0);
            let p = s.w.pools[0].swap;
            s.w.bank.accts[p].data = vec![0u8; len];
            let before = s.w.bank.clone();
            t.states += 1;
            t.transitions += 1;
            let r = s.run(false, &None);
            if r.is_ok() != (len == LEN) || (r.is_err() && s.w.bank != before) {
                ctx.violation("initialization with an account of another size", json!({"size": len, "result": format!("{:?}", r)}));
            } else if r.is_ok() {
                t.traces += 1;
            }
        }
    });
}
