//! C23: a refused request says why. One requirement is broken at a time, everything else being
//! right, and the code the program answers with has to be the one documented for it (error.rs).
use super::common::*;
use super::init::{faults, Setup, CURVES};
use super::ledger::{grid, BIG};
use super::linear_checks::{curve, lin};
use crate::big::*;
use crate::model::*;
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::json;
use std::sync::Mutex;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::CurveType;
use token_bonding_curve::error::SwapError;
use solana_program::program_error::ProgramError;

// the documented numbers, in the order of the documentation
const IN_USE: u32 = 0;
const ADDRESS: u32 = 1;
const OWNER_: u32 = 2;
const OUTPUT_OWNER: u32 = 3;
const MINT: u32 = 4;
const ACCOUNT: u32 = 5;
const EMPTY: u32 = 6;
const SUPPLY: u32 = 7;
const DELEGATE: u32 = 8;
const INPUT: u32 = 9;
const SWAP_ACCOUNT: u32 = 10;
const POOL_MINT: u32 = 11;
const REPEATED: u32 = 15;
const SLIPPAGE: u32 = 16;
const CLOSE: u32 = 17;
const FREEZE: u32 = 18;
const FEE_ACCOUNT: u32 = 19;
const ZERO: u32 = 20;
const FEE: u32 = 23;
const TOKEN_PROGRAM: u32 = 24;
const CURVE_TYPE: u32 = 25;
const CURVE: u32 = 26;
const OPERATION: u32 = 27;

fn numbers() -> Vec<(SwapError, &'static str)> {
    use SwapError::*;
    vec![
        (AlreadyInUse, "AlreadyInUse"),
        (InvalidProgramAddress, "InvalidProgramAddress"),
        (InvalidOwner, "InvalidOwner"),
        (InvalidOutputOwner, "InvalidOutputOwner"),
        (ExpectedMint, "ExpectedMint"),
        (ExpectedAccount, "ExpectedAccount"),
        (EmptySupply, "EmptySupply"),
        (InvalidSupply, "InvalidSupply"),
        (InvalidDelegate, "InvalidDelegate"),
        (InvalidInput, "InvalidInput"),
        (IncorrectSwapAccount, "IncorrectSwapAccount"),
        (IncorrectPoolMint, "IncorrectPoolMint"),
        (InvalidOutput, "InvalidOutput"),
        (CalculationFailure, "CalculationFailure"),
        (InvalidInstruction, "InvalidInstruction"),
        (RepeatedMint, "RepeatedMint"),
        (ExceededSlippage, "ExceededSlippage"),
        (InvalidCloseAuthority, "InvalidCloseAuthority"),
        (InvalidFreezeAuthority, "InvalidFreezeAuthority"),
        (IncorrectFeeAccount, "IncorrectFeeAccount"),
        (ZeroTradingTokens, "ZeroTradingTokens"),
        (FeeCalculationFailure, "FeeCalculationFailure"),
        (ConversionFailure, "ConversionFailure"),
        (InvalidFee, "InvalidFee"),
        (IncorrectTokenProgramId, "IncorrectTokenProgramId"),
        (UnsupportedCurveType, "UnsupportedCurveType"),
        (InvalidCurve, "InvalidCurve"),
        (UnsupportedCurveOperation, "UnsupportedCurveOperation"),
    ]
}

fn said(f: &Fail, want: &[u32]) -> bool {
    want.iter().any(|c| *f == Fail::Err(format!("Custom({})", c)))
}
fn names(want: &[u32]) -> Vec<&'static str> {
    let n = numbers();
    want.iter().map(|c| n[*c as usize].1).collect()
}

/// the documented reason of each way to get a pool wrong
fn why(fault: &str, c: &Curve) -> Option<&'static [u32]> {
    let lin = matches!(c, Curve::Linear { .. });
    Some(match fault {
        "pool account already in use" | "pool account in use with other bytes" => &[IN_USE],
        "authority of another pool" | "authority is a wallet" => &[ADDRESS],
        "vault A owned by a user" | "vault B owned by a user" | "vault A owned by the pool account itself" | "pool mint of a user" | "pool mint without authority" => &[OWNER_],
        "destination owned by the pool authority" | "fee account owned by the pool authority" => &[OUTPUT_OWNER],
        "vault B holds token A" | "one account for both vaults" => &[REPEATED],
        "vault amounts the curve can not start with" => &[EMPTY],
        // the linear curve starts without any A tokens
        "second vault amount the curve can not start with" => {
            if lin {
                return None;
            }
            &[EMPTY]
        }
        "vault A has a delegate" | "vault B has a delegate" | "vault A has a delegate for nothing yet" => &[DELEGATE],
        "vault A has a close authority" | "vault B has a close authority" => &[CLOSE],
        "pool tokens exist already" => &[SUPPLY],
        "pool mint can be frozen" | "pool mint can be frozen by the pool" => &[FREEZE],
        "fee account of another token" => &[POOL_MINT],
        "trade fee of everything" | "owner fee of more than everything" | "withdrawal fee without denominator" | "host fee of everything" => &[FEE],
        "curve parameters" | "curve parameters (slope denominator)" | "curve parameters (price denominator)" | "curve parameters (slope too small)" => &[CURVE],
        "foreign token program" | "vault A forged" | "vault B forged" | "pool mint forged" | "fee account forged" | "destination forged" => &[TOKEN_PROGRAM],
        "vault A is not a token account" | "vault A uninitialized" | "vault B uninitialized" | "fee account uninitialized" | "destination uninitialized" | "fee account is a mint" => &[ACCOUNT],
        "pool mint uninitialized" | "pool mint is a token account" => &[MINT],
        // rules of the runtime and of the token program
        _ => return None,
    })
}

pub fn c23(ctx: &Ctx) {
    let mut t = Tally::default();
    for (i, (e, n)) in numbers().into_iter().enumerate() {
        t.states += 1;
        let p: ProgramError = e.into();
        if p != ProgramError::Custom(i as u32) {
            ctx.violation("an error has another number than documented", json!({"error": n, "number": i, "reported_as": format!("{:?}", p)}));
        }
    }
    ctx.add(&t);
    initialization(ctx);
    operations(ctx);
    amounts(ctx);
    ctx.note("bounds", json!({"error_numbers": 28, "what": "each requirement broken alone, on every curve, through every way in"}));
}

fn initialization(ctx: &Ctx) {
    let fs = faults();
    let covered = Mutex::new(0u64);
    par(ctx, fs.len(), |i, t| {
        let (name, f) = fs[i];
        for c in CURVES {
            let want = match why(name, &c) {
                Some(x) => x,
                None => continue,
            };
            let fees: Vec<Fee> = if matches!(c, Curve::Linear { .. }) { vec![NOFEE] } else { FEES.to_vec() };
            for fee in fees {
                for pool in 0..3 {
                    for &entry in super::init::entries(&c) {
                        let mut s = Setup::new(c, fee, pool);
                        if !f(&mut s) {
                            continue;
                        }
                        t.states += 1;
                        t.transitions += 1;
                        match s.run(entry, &None) {
                            Ok(()) => ctx.violation("a pool that must be refused is created", json!({"fault": name, "curve": format!("{:?}", c)})),
                            Err(e) if said(&e, want) => t.traces += 1,
                            Err(e) => ctx.violation(
                                &format!("initialization, {}: another reason is given", name),
                                json!({"fault": name, "curve": format!("{:?}", c), "fees": format!("{:?}", fee), "through_entry_point": entry, "answer": format!("{:?}", e), "documented": names(want)}),
                            ),
                        }
                        *covered.lock().unwrap() += 1;
                    }
                }
            }
        }
    });
    // the constraints of a deployment
    let fee = Fee { trade: (25, 10000), owner: (5, 10000), wd: (1, 1000), host: (20, 100) };
    let owner = key("owner").to_string();
    let low = [
        ("trade fee below the required one", Fee { trade: (24, 10000), ..fee }),
        ("trade fee on another denominator", Fee { trade: (250, 100000), ..fee }),
        ("owner fee below the required one", Fee { owner: (4, 10000), ..fee }),
        ("owner fee on another denominator", Fee { owner: (50, 100000), ..fee }),
        ("withdrawal fee on another denominator", Fee { wd: (10, 10000), ..fee }),
        ("another host share", Fee { host: (19, 100), ..fee }),
        ("host share on another denominator", Fee { host: (20, 101), ..fee }),
    ];
    let mut t = Tally::default();
    for c in CURVES {
        let ct = super::init::ctype(&c);
        let others: Vec<CurveType> = [CurveType::ConstantProduct, CurveType::ConstantPrice, CurveType::Stable, CurveType::Offset, CurveType::LinearPrice].iter().filter(|x| **x != ct).cloned().collect();
        let real = fee.real();
        let mut go = |what: &str, f: Fee, types: &[CurveType], who: &str, want: &[u32]| {
            let types: &'static [CurveType] = Box::leak(types.to_vec().into_boxed_slice());
            let r: &'static _ = Box::leak(Box::new(real.clone()));
            let o: &'static str = Box::leak(who.to_string().into_boxed_str());
            let k = Some(SwapConstraints { owner_key: o, valid_curve_types: types, fees: r });
            let mut s = Setup::new(c, f, 0);
            t.states += 1;
            t.transitions += 1;
            match s.run(false, &k) {
                Err(e) if said(&e, want) => t.traces += 1,
                r => ctx.violation(&format!("deployment constraint, {}: another answer", what), json!({"curve": format!("{:?}", c), "answer": format!("{:?}", r), "documented": names(want)})),
            }
        };
        for (n, f) in low {
            go(n, f, &[ct], &owner, &[FEE]);
        }
        go("curve of another kind", fee, &others, &owner, &[CURVE_TYPE]);
        go("no curve allowed", fee, &[], &owner, &[CURVE_TYPE]);
        go("fee account of somebody else", fee, &[ct], &key("bob").to_string(), &[OWNER_]);
    }
    ctx.add(&t);
    ctx.note("initialization", json!({"single_faults": *covered.lock().unwrap()}));
}

/// Two pools; every account of every operation replaced by one that is wrong in one respect.
fn operations(ctx: &Ctx) {
    let cs = [
        Curve::Product,
        Curve::Price { p: 3 },
        Curve::Stable { amp: 85 },
        Curve::Offset { off: 9 },
        curve(&lin(1, 2, 1, 1)),
    ];
    let mut cfgs = super::ledger::cross(&cs, &[FEES[0], FEES[2], FEES[3]]);
    // the owner's fee is paid in pool tokens, which the linear curve does not convert
    cfgs.retain(|c| !matches!(c.curve, Curve::Linear { .. }) || c.fee == NOFEE);
    par(ctx, cfgs.len(), |i, t| {
        let cfg = cfgs[i];
        let linear = matches!(cfg.curve, Curve::Linear { .. });
        let f = Funds { va: if linear { 0 } else { 100_000 }, vb: 100_000, a: [1 << 40; 3], b: [1 << 40; 3] };
        let mut w = match World::new(cfg, 2, &f) {
            Ok(w) => w,
            Err(e) => return ctx.violation("a valid pool cannot be initialized", json!({"cfg": cfg_json(&cfg), "error": format!("{:?}", e)})),
        };
        if linear {
            // something has been sold
            let _ = w.run(0, &Op::Swap { u: BOB, a2b: true, amt: 5000, min: 0, host: false });
        }
        let (p, q) = (w.pools[0], w.pools[1]);
        let other_mint = key("mint_c");
        let c_acct = w.add("alice_c", key("alice_c"), spl_token::id(), pack_tok(&tok(other_mint, key("alice"), 1 << 40)));
        let evil = w.add("evil_token", key("evil"), native_loader(), vec![]);
        let fake_pool = {
            let d = w.bank.accts[p.swap].data.clone();
            w.add("pool record of another program", key("fake"), key("evil"), d)
        };
        let al = w.users[ALICE];
        let ops = [
            Op::Swap { u: ALICE, a2b: true, amt: 1000, min: 0, host: false },
            Op::Swap { u: ALICE, a2b: false, amt: 1000, min: 0, host: false },
            Op::Swap { u: ALICE, a2b: true, amt: 1000, min: 0, host: true },
            Op::DepAll { u: ALICE, lp: 1_000_000, max_a: BIG, max_b: BIG },
            Op::WdAll { u: ALICE, lp: 1_000_000, min_a: 0, min_b: 0 },
            Op::DepOne { u: ALICE, a: true, amt: 1000, min_lp: 0 },
            Op::DepOne { u: ALICE, a: false, amt: 1000, min_lp: 0 },
            Op::WdOne { u: ALICE, a: true, amt: 100, max_lp: BIG },
            Op::WdOne { u: ALICE, a: false, amt: 100, max_lp: BIG },
        ];
        let st = w.state();
        for op in &ops {
            let honest = w.metas(0, op);
            w.load(&st);
            let ok = w.run_with(op, &honest);
            t.transitions += 1;
            let deposit = matches!(op, Op::DepAll { .. } | Op::DepOne { .. });
            let withdrawal = matches!(op, Op::WdAll { .. } | Op::WdOne { .. });
            if (deposit && !allows_deposits(&cfg.curve)) || (withdrawal && linear) {
                // an operation the curve does not have; a withdrawal has no amount to give there
                let want: &[u32] = if deposit { &[OPERATION] } else { &[OPERATION, ZERO] };
                match ok {
                    Err(e) if said(&e, want) => t.traces += 1,
                    r => ctx.violation(&format!("{}: another answer for an operation the curve does not allow", opname(op)), json!({"cfg": cfg_json(&cfg), "answer": format!("{:?}", r), "documented": names(want)})),
                }
                continue;
            }
            if let Err(e) = ok {
                ctx.violation(&format!("{}: refused although everything is right", opname(op)), json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "error": format!("{:?}", e)}));
                continue;
            }
            let single = matches!(op, Op::DepOne { .. } | Op::WdOne { .. });
            let user = [al.a, al.b];
            let mut wrong: Vec<(String, usize, usize, Vec<u32>)> = vec![];
            for (slot, me) in honest.iter().enumerate() {
                let mut put = |what: &str, with: usize, want: &[u32]| wrong.push((what.to_string(), slot, with, want.to_vec()));
                let x = me.ix;
                if x == p.auth {
                    put("another pool's authority", q.auth, &[ADDRESS]);
                    put("a wallet for the authority", al.wallet, &[ADDRESS]);
                    put("the pool itself for the authority", p.swap, &[ADDRESS]);
                } else if x == p.va || x == p.vb {
                    put("another pool's vault", if x == p.va { q.va } else { q.vb }, &[SWAP_ACCOUNT]);
                    put("a user's account for the vault", if x == p.va { w.users[BOB].a } else { w.users[BOB].b }, &[SWAP_ACCOUNT]);
                    if !single {
                        // one vault twice
                        put("one vault twice", if x == p.va { p.vb } else { p.va }, &[SWAP_ACCOUNT, INPUT]);
                    }
                } else if x == p.mint {
                    put("another pool's mint", q.mint, &[POOL_MINT]);
                    put("a traded token's mint for the pool mint", w.mint_a, &[POOL_MINT]);
                } else if x == p.fee {
                    put("another fee account", w.users[BOB].lp, &[FEE_ACCOUNT]);
                    put("another pool's fee account", q.fee, &[FEE_ACCOUNT]);
                } else if x == w.token_prog {
                    put("another token program", evil, &[TOKEN_PROGRAM]);
                    put("a wallet for the token program", al.wallet, &[TOKEN_PROGRAM]);
                } else if user.contains(&x) {
                    put("the pool's vault for the user's account", if x == al.a { p.va } else { p.vb }, &[INPUT]);
                    if single {
                        put("an account of a third token", c_acct, &[SWAP_ACCOUNT]);
                        put("not an account of the token program", al.wallet, &[TOKEN_PROGRAM]);
                        put("a mint for the user's account", w.mint_a, &[ACCOUNT]);
                    }
                } else if x == w.host && cfg.fee.owner.0 > 0 && slot == honest.len() - 1 {
                    put("a host account of another token", al.a, &[POOL_MINT]);
                    put("a mint for the host account", p.mint, &[ACCOUNT]);
                    put("a host account not of the token program", al.wallet, &[TOKEN_PROGRAM]);
                }
            }
            for (what, slot, with, want) in wrong {
                let mut ms = honest.clone();
                ms[slot].ix = with;
                // accounts that are named read-only elsewhere must be passed the same way
                w.load(&st);
                t.transitions += 1;
                t.states += 1;
                match w.run_with(op, &ms) {
                    Err(e) if said(&e, &want) => t.traces += 1,
                    r => ctx.violation(
                        &format!("{} with {}: another answer", opname(op), what),
                        json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "place": slot, "answer": format!("{:?}", r), "documented": names(&want)}),
                    ),
                }
            }
            // a record kept by another program
            let mut ms = honest.clone();
            ms[0].ix = fake_pool;
            w.load(&st);
            t.transitions += 1;
            t.states += 1;
            // a record that nobody initialized
            let r = w.run_with(op, &ms);
            if r.is_ok() || r == Err(Fail::Panic) {
                ctx.violation(&format!("{} on a record of another program", opname(op)), json!({"cfg": cfg_json(&cfg), "answer": format!("{:?}", r)}));
            }
        }
    });
}

/// What the amounts themselves can be refused for, in every state of a grid: nothing to trade, and
/// the caller's limit.
fn amounts(ctx: &Ctx) {
    let mut cs = vec![Curve::Product, Curve::Price { p: 1 }, Curve::Price { p: 7 }, Curve::Offset { off: 6 }, Curve::Stable { amp: 20 }];
    cs.push(curve(&lin(1, 2, 1, 1)));
    cs.push(curve(&lin(1, 1000, 0, 1)));
    let cfgs = super::ledger::cross(&cs, &[NOFEE, FEES[2], FEES[3]]);
    let big = 1_000_000_007u64;
    let n = if ctx.deep { 24 } else if ctx.thorough { 8 } else { 4 };
    let mut pools: Vec<(u64, u64, u64)> = vec![];
    for a in 0..=n {
        for b in 0..=n {
            for s in [1, 7, 1_000_000_000] {
                pools.push((a, b, s));
            }
        }
    }
    pools.extend([(big, 3 * big, big), (1 << 45, 1 << 44, 1 << 50), (3, big, 1_000_000_000), (1000, 900, 1_000_000_000)]);
    let am: Vec<u64> = if ctx.thorough { (0..=if ctx.deep { 60 } else { 20 }).chain([100, 1000, 123_456, big]).collect() } else { (0..=6).chain([100, 1000, big / 3]).collect() };


    grid(
        ctx,
        &cfgs,
        &pools,
        &move |_, (_, _, s)| {
            let mut o = vec![];
            for &x in &am {
                for a in [true, false] {
                    o.push(Op::Swap { u: ALICE, a2b: a, amt: x, min: 0, host: false });
                    o.push(Op::Swap { u: ALICE, a2b: a, amt: x, min: BIG, host: false });
                    o.push(Op::DepOne { u: ALICE, a, amt: x, min_lp: 0 });
                    o.push(Op::DepOne { u: ALICE, a, amt: x, min_lp: BIG });
                    o.push(Op::WdOne { u: ALICE, a, amt: x, max_lp: BIG });
                    o.push(Op::WdOne { u: ALICE, a, amt: x, max_lp: 0 });
                }
                if x <= s / 2 {
                    o.push(Op::DepAll { u: ALICE, lp: x, max_a: BIG, max_b: BIG });
                    o.push(Op::DepAll { u: ALICE, lp: x, max_a: 0, max_b: BIG });
                    o.push(Op::DepAll { u: ALICE, lp: x, max_a: BIG, max_b: 0 });
                    o.push(Op::WdAll { u: ALICE, lp: x, min_a: 0, min_b: 0 });
                    o.push(Op::WdAll { u: ALICE, lp: x, min_a: BIG, min_b: 0 });
                    o.push(Op::WdAll { u: ALICE, lp: x, min_a: 0, min_b: BIG });
                }
            }
            o
        },
        &|t, e| {
            let loose = match *e.op {
                Op::Swap { u, a2b, amt, host, .. } => Op::Swap { u, a2b, amt, min: 0, host },
                Op::DepAll { u, lp, .. } => Op::DepAll { u, lp, max_a: BIG, max_b: BIG },
                Op::WdAll { u, lp, .. } => Op::WdAll { u, lp, min_a: 0, min_b: 0 },
                Op::DepOne { u, a, amt, .. } => Op::DepOne { u, a, amt, min_lp: 0 },
                Op::WdOne { u, a, amt, .. } => Op::WdOne { u, a, amt, max_lp: BIG },
                o => o,
            };
            let f = match e.res {
                Ok(_) => return Ok(()),
                Err(f) => f,
            };
            // the reference model says what would happen without the limit
            let want: &[u32] = if loose != *e.op {
                match predict(e.w, e.pre, &loose, None)? {
                    Pred::Ok(_) => &[SLIPPAGE],
                    // the curves the model does not predict: the program itself does
                    Pred::Free(_) => match e.w.clone().step(e.pre, &loose)? {
                        Ok(_) => &[SLIPPAGE],
                        Err(_) => return Ok(()),
                    },
                    _ => return Ok(()),
                }
            } else {
                match nothing(e.w, e.pre, e.op) {
                    true => &[ZERO],
                    false => return Ok(()),
                }
            };
            if said(f, want) {
                t.traces += 1;
                t.bump(if want[0] == ZERO { "refused_for_nothing_to_trade" } else { "refused_for_the_limit" });
                Ok(())
            } else {
                Err(format!("another reason is given: {:?} instead of {:?}", f, names(want)))
            }
        },
    );
}

/// the documented formula gives no tokens for this operation (exactly modelled curves)
fn nothing(w: &World, s: &State, op: &Op) -> bool {
    let p = w.pools[0];
    let c = &w.cfg.curve;
    let (a, b, sup) = (s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128);
    match *op {
        Op::Swap { a2b, amt, .. } => {
            let x = amt as u128;
            if x == 0 {
                return true;
            }
            let fees = fee(w.cfg.fee.trade, x) + fee(w.cfg.fee.owner, x);
            let (rs, rd) = if a2b { (a, b) } else { (b, a) };
            // what is left after the fees gives nothing (the other curves are not predicted here)
            fees > x || matches!(quote(c, a2b, x - fees, rs, rd), Quote::None)
        }
        Op::DepAll { lp, .. } if allows_deposits(c) => match both(c, lp as u128, a, b, sup, true) {
            Some((x, y, over)) => !over && x < w64() && y < w64() && (x.is_zero() || y.is_zero()),
            None => !matches!(c, Curve::Linear { .. } | Curve::Stable { .. }),
        },
        Op::WdAll { lp, .. } if w.cfg.fee.wd.0 == 0 => match both(c, lp as u128, a, b, sup, false) {
            Some((x, y, over)) => !over && x < w64() && y < w64() && ((x.is_zero() && a > 0) || (y.is_zero() && b > 0)),
            None => false,
        },
        Op::DepOne { amt, .. } if allows_deposits(c) => amt == 0,
        Op::WdOne { amt, .. } => amt == 0 && !matches!(c, Curve::Linear { .. }),
        _ => false,
    }
}
fn w64() -> W {
    crate::big::w(1u128 << 63)
}
