//! The accounts the checks play with: two pools over the same two tokens, a few users, and the
//! instruction builders. A state of the system is the vector of all token balances and mint
//! supplies; every other byte of every account is asserted constant by `World::settle`.
use crate::svm::*;
use anchor_lang::AnchorSerialize;
use solana_program::{program_option::COption, program_pack::Pack, pubkey::Pubkey};
use spl_token::state::{Account, AccountState, Mint};
use token_bonding_curve::curve::{
    base::{CurveType, SwapCurve},
    calculator::CurveCalculator,
    constant_price::ConstantPriceCurve,
    constant_product::ConstantProductCurve,
    fees::Fees,
    linear_price::LinearPriceCurve,
    offset::OffsetCurve,
    stable::StableCurve,
};
use token_bonding_curve::processor::Processor;
use token_bonding_curve::state::SwapVersion;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Curve {
    Product,
    Price { p: u64 },
    Stable { amp: u64 },
    Offset { off: u64 },
    Linear { sn: u64, sd: u64, pn: u64, pd: u64 },
}
impl Curve {
    pub fn real(&self) -> SwapCurve {
        let (t, c): (CurveType, Box<dyn CurveCalculator>) = match *self {
            Curve::Product => (CurveType::ConstantProduct, Box::new(ConstantProductCurve {})),
            Curve::Price { p } => (CurveType::ConstantPrice, Box::new(ConstantPriceCurve { token_b_price: p })),
            Curve::Stable { amp } => (CurveType::Stable, Box::new(StableCurve { amp })),
            Curve::Offset { off } => (CurveType::Offset, Box::new(OffsetCurve { token_b_offset: off })),
            Curve::Linear { sn, sd, pn, pd } => (
                CurveType::LinearPrice,
                Box::new(LinearPriceCurve {
                    slope_numerator: sn,
                    slope_denominator: sd,
                    initial_token_a_price_numerator: pn,
                    initial_token_a_price_denominator: pd,
                }),
            ),
        };
        SwapCurve { curve_type: t, calculator: c }
    }
    /// the packed form, written from the documented account layout
    pub fn packed(&self) -> [u8; 33] {
        let mut o = [0u8; 33];
        let mut put = |i: usize, v: u64| o[1 + 8 * i..9 + 8 * i].copy_from_slice(&v.to_le_bytes());
        let t = match *self {
            Curve::Product => 0,
            Curve::Price { p } => {
                put(0, p);
                1
            }
            Curve::Stable { amp } => {
                put(0, amp);
                2
            }
            Curve::Offset { off } => {
                put(0, off);
                3
            }
            Curve::Linear { sn, sd, pn, pd } => {
                put(0, sn);
                put(1, sd);
                put(2, pn);
                put(3, pd);
                30
            }
        };
        o[0] = t;
        o
    }
}

/// (numerator, denominator) of the four fees
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fee {
    pub trade: (u64, u64),
    pub owner: (u64, u64),
    pub wd: (u64, u64),
    pub host: (u64, u64),
}
pub const NOFEE: Fee = Fee { trade: (0, 1), owner: (0, 1), wd: (0, 1), host: (0, 1) };
impl Fee {
    pub fn real(&self) -> Fees {
        Fees {
            trade_fee_numerator: self.trade.0,
            trade_fee_denominator: self.trade.1,
            owner_trade_fee_numerator: self.owner.0,
            owner_trade_fee_denominator: self.owner.1,
            owner_withdraw_fee_numerator: self.wd.0,
            owner_withdraw_fee_denominator: self.wd.1,
            host_fee_numerator: self.host.0,
            host_fee_denominator: self.host.1,
        }
    }
    pub fn list(&self) -> [u64; 8] {
        [
            self.trade.0, self.trade.1, self.owner.0, self.owner.1, self.wd.0, self.wd.1, self.host.0, self.host.1,
        ]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub curve: Curve,
    pub fee: Fee,
}

pub fn key(tag: &str) -> Pubkey {
    let h = SALT.with(|s| match s.get() {
        0 => solana_program::hash::hash(tag.as_bytes()),
        n => solana_program::hash::hashv(&[tag.as_bytes(), &n.to_le_bytes()]),
    });
    Pubkey::new_from_array(h.to_bytes())
}
thread_local! { static SALT: std::cell::Cell<u32> = std::cell::Cell::new(0); }
/// run f with all addresses made from names different ones
pub fn salted<T>(salt: u32, f: impl FnOnce() -> T) -> T {
    SALT.with(|s| s.set(salt));
    let r = f();
    SALT.with(|s| s.set(0));
    r
}

pub fn tok(mint: Pubkey, owner: Pubkey, amount: u64) -> Account {
    Account {
        mint,
        owner,
        amount,
        delegate: COption::None,
        state: AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    }
}
pub fn pack_tok(a: &Account) -> Vec<u8> {
    let mut v = vec![0u8; Account::LEN];
    Account::pack_into_slice(a, &mut v);
    v
}
pub fn pack_mint(mi: &Mint) -> Vec<u8> {
    let mut v = vec![0u8; Mint::LEN];
    Mint::pack_into_slice(mi, &mut v);
    v
}

#[derive(Clone, Copy, Debug)]
pub struct PoolIx {
    pub swap: usize,
    pub auth: usize,
    pub va: usize,
    pub vb: usize,
    pub mint: usize,
    pub fee: usize,
}
#[derive(Clone, Copy, Debug)]
pub struct UserIx {
    pub wallet: usize,
    pub a: usize,
    pub b: usize,
    pub lp: usize,
}

pub const ALICE: usize = 0;
pub const BOB: usize = 1;
/// the pool owner: its pool-token account is the fee account
pub const OWNER: usize = 2;

#[derive(Clone)]
pub struct World {
    pub cfg: Cfg,
    pub bank: Bank,
    pub names: Vec<String>,
    pub token_prog: usize,
    pub mint_a: usize,
    pub mint_b: usize,
    pub pools: Vec<PoolIx>,
    pub users: Vec<UserIx>,
    pub host: usize,
}

/// All balances; index = account index in the bank (0 for accounts that hold no amount).
pub type State = Vec<u64>;

pub fn amount_at(data: &[u8], owner: &Pubkey) -> Option<(usize, u64)> {
    if *owner != spl_token::id() {
        return None;
    }
    let off = match data.len() {
        165 => 64,
        82 => 36,
        _ => return None,
    };
    Some((off, u64::from_le_bytes(data[off..off + 8].try_into().unwrap())))
}

pub struct Funds {
    /// vault amounts of every pool at initialization
    pub va: u64,
    pub vb: u64,
    /// user balances (alice, bob, owner)
    pub a: [u64; 3],
    pub b: [u64; 3],
}

/// The same accounts, all of them writable.
pub fn wide(ms: &[Meta]) -> Vec<Meta> {
    ms.iter().map(|x| Meta { writable: true, ..*x }).collect()
}

impl World {
    pub fn add(&mut self, name: &str, k: Pubkey, owner: Pubkey, data: Vec<u8>) -> usize {
        self.bank.accts.push(Acct { key: k, owner, data, lamports: 1_000_000_000 });
        self.names.push(name.to_string());
        self.bank.accts.len() - 1
    }
    pub fn k(&self, i: usize) -> Pubkey {
        self.bank.accts[i].key
    }
    /// Pools with everything in place but not initialized yet.
    pub fn blank(cfg: Cfg, npools: usize, f: &Funds) -> World {
        let mut w = World {
            cfg,
            bank: Bank::default(),
            names: vec![],
            token_prog: 0,
            mint_a: 0,
            mint_b: 0,
            pools: vec![],
            users: vec![],
            host: 0,
        };
        let tid = spl_token::id();
        let sys = solana_program::system_program::id();
        w.token_prog = w.add("token_program", tid, native_loader(), vec![]);
        let mk = |auth: Pubkey, supply: u64| {
            pack_mint(&Mint {
                mint_authority: COption::Some(auth),
                supply,
                decimals: 2,
                is_initialized: true,
                freeze_authority: COption::None,
            })
        };
        let np = npools as u128;
        let tot = |v: u64, u: &[u64; 3]| (v as u128 * np + u.iter().map(|x| *x as u128).sum::<u128>()).min(u64::MAX as u128) as u64;
        w.mint_a = w.add("mint_a", key("mint_a"), tid, mk(key("minter"), tot(f.va, &f.a)));
        w.mint_b = w.add("mint_b", key("mint_b"), tid, mk(key("minter"), tot(f.vb, &f.b)));
        let (ka, kb) = (key("mint_a"), key("mint_b"));
        for i in 0..npools {
            let ks = key(&format!("swap{}", i));
            let (auth, _) = Pubkey::find_program_address(&[&ks.to_bytes()], &program_id());
            let km = key(&format!("pool_mint{}", i));
            let swap = w.add(&format!("swap{}", i), ks, program_id(), vec![0u8; SwapVersion::LATEST_LEN]);
            let au = w.add(&format!("authority{}", i), auth, sys, vec![]);
            let va = w.add(&format!("vault_a{}", i), key(&format!("va{}", i)), tid, pack_tok(&tok(ka, auth, f.va)));
            let vb = w.add(&format!("vault_b{}", i), key(&format!("vb{}", i)), tid, pack_tok(&tok(kb, auth, f.vb)));
            let mint = w.add(&format!("pool_mint{}", i), km, tid, mk(auth, 0));
            let fee = w.add(&format!("fee_account{}", i), key(&format!("fee{}", i)), tid, pack_tok(&tok(km, key("owner"), 0)));
            w.pools.push(PoolIx { swap, auth: au, va, vb, mint, fee });
        }
        let lpm = key("pool_mint0");
        for (i, n) in ["alice", "bob", "owner"].iter().enumerate() {
            let wallet = w.add(n, key(n), sys, vec![]);
            let a = w.add(&format!("{}_a", n), key(&format!("{}_a", n)), tid, pack_tok(&tok(ka, key(n), f.a[i])));
            let b = w.add(&format!("{}_b", n), key(&format!("{}_b", n)), tid, pack_tok(&tok(kb, key(n), f.b[i])));
            let lp = if i == OWNER {
                w.pools[0].fee
            } else {
                w.add(&format!("{}_lp", n), key(&format!("{}_lp", n)), tid, pack_tok(&tok(lpm, key(n), 0)))
            };
            w.users.push(UserIx { wallet, a, b, lp });
        }
        w.host = w.add("host_lp", key("host_lp"), tid, pack_tok(&tok(lpm, key("host"), 0)));
        // destination of the initial supply of further pools
        for i in 1..npools {
            w.add(
                &format!("alice_lp_of{}", i),
                key(&format!("alice_lp_of{}", i)),
                tid,
                pack_tok(&tok(key(&format!("pool_mint{}", i)), key("alice"), 0)),
            );
        }
        w
    }
    pub fn named(&self, n: &str) -> usize {
        self.names.iter().position(|x| x == n).unwrap_or_else(|| panic!("no account {}", n))
    }
    /// Initialized pools; the initial pool tokens go to alice.
    pub fn new(cfg: Cfg, npools: usize, f: &Funds) -> Result<World, Fail> {
        let mut w = World::blank(cfg, npools, f);
        for i in 0..npools {
            let dest = if i == 0 { w.users[ALICE].lp } else { w.named(&format!("alice_lp_of{}", i)) };
            let metas = w.init_metas(i, dest);
            let (fee, curve) = (cfg.fee, cfg.curve);
            exec(
                &mut w.bank,
                &Target::Func(&move |p, a| Processor::process_initialize(p, fee.real(), curve.real(), a, &None)),
                &metas,
            )?;
        }
        Ok(w)
    }
    pub fn init_metas(&self, pool: usize, dest: usize) -> Vec<Meta> {
        let p = &self.pools[pool];
        vec![
            m(p.swap, true, true),
            m(p.auth, false, false),
            m(p.va, false, false),
            m(p.vb, false, false),
            m(p.mint, false, true),
            m(p.fee, false, false),
            m(dest, false, true),
            m(self.token_prog, false, false),
        ]
    }
    pub fn state(&self) -> State {
        self.bank
            .accts
            .iter()
            .map(|a| amount_at(&a.data, &a.owner).map(|x| x.1).unwrap_or(0))
            .collect()
    }
    pub fn load(&mut self, s: &State) {
        for (a, v) in self.bank.accts.iter_mut().zip(s) {
            if let Some((off, old)) = amount_at(&a.data, &a.owner) {
                if old != *v {
                    a.data[off..off + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
    }
    /// Set one balance (and nothing else).
    pub fn set(&mut self, i: usize, v: u64) {
        let a = &mut self.bank.accts[i];
        let (off, _) = amount_at(&a.data, &a.owner).expect("no amount here");
        a.data[off..off + 8].copy_from_slice(&v.to_le_bytes());
    }
    pub fn get(&self, i: usize) -> u64 {
        let a = &self.bank.accts[i];
        amount_at(&a.data, &a.owner).expect("no amount here").1
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Swap { u: usize, a2b: bool, amt: u64, min: u64, host: bool },
    DepAll { u: usize, lp: u64, max_a: u64, max_b: u64 },
    WdAll { u: usize, lp: u64, min_a: u64, min_b: u64 },
    DepOne { u: usize, a: bool, amt: u64, min_lp: u64 },
    WdOne { u: usize, a: bool, amt: u64, max_lp: u64 },
    /// plain token transfer by a user into a vault
    Donate { u: usize, a: bool, amt: u64 },
    /// a user burns pool tokens directly
    Burn { u: usize, lp: u64 },
}

pub fn disc(name: &str) -> Vec<u8> {
    solana_program::hash::hash(format!("global:{}", name).as_bytes()).to_bytes()[..8].to_vec()
}
pub fn ixdata(name: &str, args: &[u64]) -> Vec<u8> {
    let mut d = disc(name);
    for a in args {
        d.extend(a.try_to_vec().unwrap());
    }
    d
}
fn cached(name: &'static str) -> Vec<u8> {
    use std::cell::RefCell;
    thread_local! { static C: RefCell<Vec<(&'static str, Vec<u8>)>> = RefCell::new(vec![]); }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(e) = c.iter().find(|e| e.0 == name) {
            return e.1.clone();
        }
        let d = disc(name);
        c.push((name, d.clone()));
        d
    })
}
fn enc(name: &'static str, args: &[u64]) -> Vec<u8> {
    let mut d = cached(name);
    for a in args {
        d.extend_from_slice(&a.to_le_bytes());
    }
    d
}

impl World {
    /// The honest account list of an operation on pool `p`.
    pub fn metas(&self, pool: usize, op: &Op) -> Vec<Meta> {
        let p = &self.pools[pool];
        let us = |u: usize| &self.users[u];
        let t = m(self.token_prog, false, false);
        match *op {
            Op::Swap { u, a2b, host, .. } => {
                let x = us(u);
                let (src, ps, pd, dst) = if a2b { (x.a, p.va, p.vb, x.b) } else { (x.b, p.vb, p.va, x.a) };
                let mut v = vec![
                    m(p.swap, false, false),
                    m(p.auth, false, false),
                    m(x.wallet, true, false),
                    m(src, false, true),
                    m(ps, false, true),
                    m(pd, false, true),
                    m(dst, false, true),
                    m(p.mint, false, true),
                    m(p.fee, false, true),
                    t,
                ];
                if host {
                    v.push(m(self.host, false, true));
                }
                v
            }
            Op::DepAll { u, .. } => {
                let x = us(u);
                vec![
                    m(p.swap, false, false),
                    m(p.auth, false, false),
                    m(x.wallet, true, false),
                    m(x.a, false, true),
                    m(x.b, false, true),
                    m(p.va, false, true),
                    m(p.vb, false, true),
                    m(p.mint, false, true),
                    m(x.lp, false, true),
                    t,
                ]
            }
            Op::WdAll { u, .. } => {
                let x = us(u);
                vec![
                    m(p.swap, false, false),
                    m(p.auth, false, false),
                    m(x.wallet, true, false),
                    m(p.mint, false, true),
                    m(x.lp, false, true),
                    m(p.va, false, true),
                    m(p.vb, false, true),
                    m(x.a, false, true),
                    m(x.b, false, true),
                    m(p.fee, false, true),
                    t,
                ]
            }
            Op::DepOne { u, a, .. } => {
                let x = us(u);
                vec![
                    m(p.swap, false, false),
                    m(p.auth, false, false),
                    m(x.wallet, true, false),
                    m(if a { x.a } else { x.b }, false, true),
                    m(p.va, false, true),
                    m(p.vb, false, true),
                    m(p.mint, false, true),
                    m(x.lp, false, true),
                    t,
                ]
            }
            Op::WdOne { u, a, .. } => {
                let x = us(u);
                vec![
                    m(p.swap, false, false),
                    m(p.auth, false, false),
                    m(x.wallet, true, false),
                    m(p.mint, false, true),
                    m(x.lp, false, true),
                    m(p.va, false, true),
                    m(p.vb, false, true),
                    m(if a { x.a } else { x.b }, false, true),
                    m(p.fee, false, true),
                    t,
                ]
            }
            Op::Donate { u, a, .. } => {
                let x = us(u);
                vec![
                    m(if a { x.a } else { x.b }, false, true),
                    m(if a { p.va } else { p.vb }, false, true),
                    m(x.wallet, true, false),
                ]
            }
            Op::Burn { u, .. } => {
                let x = us(u);
                vec![m(x.lp, false, true), m(p.mint, false, true), m(x.wallet, true, false)]
            }
        }
    }
    pub fn entry_data(op: &Op) -> Vec<u8> {
        match *op {
            Op::Swap { amt, min, .. } => enc("swap", &[amt, min]),
            Op::DepAll { lp, max_a, max_b, .. } => enc("deposit_all_token_types", &[lp, max_a, max_b]),
            Op::WdAll { lp, min_a, min_b, .. } => enc("withdraw_all_token_types", &[lp, min_a, min_b]),
            Op::DepOne { amt, min_lp, .. } => enc("deposit_single_token_type_exact_amount_in", &[amt, min_lp]),
            Op::WdOne { amt, max_lp, .. } => enc("withdraw_single_token_type_exact_amount_out", &[amt, max_lp]),
            Op::Donate { amt, .. } => {
                let mut d = vec![3u8];
                d.extend_from_slice(&amt.to_le_bytes());
                d
            }
            Op::Burn { lp, .. } => {
                let mut d = vec![8u8];
                d.extend_from_slice(&lp.to_le_bytes());
                d
            }
        }
    }
    /// Run an operation with the given accounts.
    pub fn run_with(&mut self, op: &Op, metas: &[Meta]) -> Result<(), Fail> {
        let data = Self::entry_data(op);
        match *op {
            Op::Donate { .. } | Op::Burn { .. } => exec(&mut self.bank, &Target::Token(&data), metas),
            // the optional host fee account is only reachable through the processor function
            Op::Swap { amt, min, host: true, .. } => exec(
                &mut self.bank,
                &Target::Func(&move |p, a| Processor::process_swap(p, amt, min, a)),
                metas,
            ),
            _ => exec(&mut self.bank, &Target::Entry(&data), metas),
        }
    }
    pub fn run(&mut self, pool: usize, op: &Op) -> Result<(), Fail> {
        // Which accounts are writable is the caller's choice: by default every one is, so that
        // nothing but the program itself keeps an account from changing. (C22 and C26 look at
        // the documented privileges.)
        let metas = wide(&self.metas(pool, op));
        self.run_with(op, &metas)
    }
    /// Load `s`, run `op` on pool 0; checks that nothing but balances changed (and nothing at all
    /// if it failed). Returns the new state.
    pub fn step(&mut self, s: &State, op: &Op) -> Result<Result<State, Fail>, String> {
        self.load(s);
        match self.run(0, op) {
            // exec leaves the bank alone unless the transaction succeeded
            Err(f) => Ok(Err(f)),
            Ok(()) => {
                self.settle_last()?;
                Ok(Ok(self.state()))
            }
        }
    }
    /// The last transaction changed nothing but balances and supplies.
    pub fn settle_last(&self) -> Result<(), String> {
        CHANGED.with(|ch| {
            for (i, old) in ch.borrow().iter() {
                let x = &self.bank.accts[*i];
                match amount_at(old, &x.owner) {
                    Some((off, _)) if x.data.len() == old.len() => {
                        if x.data[..off] != old[..off] || x.data[off + 8..] != old[off + 8..] {
                            return Err(format!("account {} changed beyond its balance", self.names[*i]));
                        }
                    }
                    _ => return Err(format!("account {} changed", self.names[*i])),
                }
            }
            Ok(())
        })
    }
    /// Every byte outside balances and supplies is unchanged with respect to `before`.
    pub fn settle(&self, before: &Bank) -> Result<(), String> {
        for (i, (x, y)) in self.bank.accts.iter().zip(&before.accts).enumerate() {
            if x.owner != y.owner || x.lamports != y.lamports || x.key != y.key || x.data.len() != y.data.len() {
                return Err(format!("account {} changed owner, lamports or size", self.names[i]));
            }
            if x.data != y.data {
                match amount_at(&y.data, &y.owner) {
                    Some((off, _)) => {
                        if x.data[..off] != y.data[..off] || x.data[off + 8..] != y.data[off + 8..] {
                            return Err(format!("account {} changed beyond its balance", self.names[i]));
                        }
                    }
                    None => return Err(format!("account {} changed", self.names[i])),
                }
            }
        }
        Ok(())
    }
}
