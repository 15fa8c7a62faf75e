//! A small in-memory Solana runtime: it runs the real program entry point (or one of the real
//! processor functions) over a bank of accounts, executes cross-program calls with the real SPL
//! token processor, and enforces the runtime rules the program relies on (signer and writable
//! privileges, program-derived signers, ownership of data, all-or-nothing transactions).
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey,
};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub lamports: u64,
}

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Bank {
    pub accts: Vec<Acct>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub ix: usize,
    pub signer: bool,
    pub writable: bool,
}
pub fn m(ix: usize, signer: bool, writable: bool) -> Meta {
    Meta { ix, signer, writable }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the program (or a program it called) returned an error
    Err(String),
    /// the program panicked (aborts the transaction on chain)
    Panic,
    /// the program broke a runtime rule (the runtime aborts the transaction)
    Runtime(String),
}

struct Snap {
    key: Pubkey,
    owner: Pubkey,
    data: Vec<u8>,
}
struct TxCtx {
    program: Pubkey,
    snaps: Vec<Snap>,
    fault: Option<String>,
    cpi_failed: bool,
    ncpi: u64,
    depth: u32,
}
thread_local! {
    static CTX: RefCell<Option<TxCtx>> = RefCell::new(None);
}

fn fault(s: &str) {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            if c.fault.is_none() {
                c.fault = Some(s.to_string());
            }
        }
    })
}

/// told when the program under test is running, and answers whether it was (see meter.rs)
pub static RUNNING: std::sync::OnceLock<fn(bool) -> bool> = std::sync::OnceLock::new();
fn running(x: bool) -> bool {
    RUNNING.get().map_or(false, |f| f(x))
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let was = running(false);
        let r = cpi(ix, infos, seeds);
        running(was);
        CTX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                c.ncpi += 1;
                if r.is_err() {
                    c.cpi_failed = true;
                }
            }
        });
        r
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let (program, depth) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().expect("cpi outside a transaction");
        c.depth += 1;
        (c.program, c.depth)
    });
    if depth > 1 {
        fault("nested cpi");
        return Err(ProgramError::InvalidArgument);
    }
    let r = cpi_inner(program, ix, infos, seeds);
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().depth -= 1);
    r
}

/// create_program_address, remembered
fn pda(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    thread_local! { static C: RefCell<Vec<(Vec<Vec<u8>>, Pubkey, Option<Pubkey>)>> = RefCell::new(vec![]); }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(e) = c.iter().find(|e| e.1 == *program && e.0.len() == seeds.len() && e.0.iter().zip(seeds).all(|(x, y)| x[..] == **y)) {
            return e.2;
        }
        let k = Pubkey::create_program_address(seeds, program).ok();
        if c.len() > 64 {
            c.clear();
        }
        c.push((seeds.iter().map(|s| s.to_vec()).collect(), *program, k));
        k
    })
}

fn cpi_inner(program: Pubkey, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    // data the caller touched before the call must have been its own
    check_foreign(&program, infos);
    let mut pdas: Vec<Pubkey> = vec![];
    for s in seeds {
        match pda(s, &program) {
            Some(k) => pdas.push(k),
            None => return Err(ProgramError::InvalidSeeds),
        }
    }
    if !infos.iter().any(|i| *i.key == ix.program_id) {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    if ix.program_id != spl_token::id() {
        EVIL.with(|e| e.set(e.get() + 1));
        // a foreign program may do anything it was given the privileges for, or nothing at all
        return Ok(());
    }
    // union of the privileges asked for per key
    let mut uniq: Vec<(Pubkey, bool, bool)> = vec![];
    for am in &ix.accounts {
        match uniq.iter_mut().find(|u| u.0 == am.pubkey) {
            Some(u) => {
                u.1 |= am.is_signer;
                u.2 |= am.is_writable;
            }
            None => uniq.push((am.pubkey, am.is_signer, am.is_writable)),
        }
    }
    let mut built: Vec<AccountInfo> = vec![];
    for (k, s, w) in &uniq {
        let info = match infos.iter().find(|i| i.key == k) {
            Some(i) => i,
            None => return Err(ProgramError::NotEnoughAccountKeys),
        };
        if *w && !info.is_writable {
            return Err(ProgramError::Custom(0xdead_0001)); // privilege escalation
        }
        if *s && !info.is_signer && !pdas.contains(k) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let mut i = info.clone();
        i.is_signer = *s;
        i.is_writable = *w;
        built.push(i);
    }
    let callee: Vec<AccountInfo> = ix
        .accounts
        .iter()
        .map(|am| built.iter().find(|b| *b.key == am.pubkey).unwrap().clone())
        .collect();
    spl_token::processor::Processor::process(&spl_token::id(), &callee, &ix.data)?;
    // what the callee changed is legitimate from now on
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        for b in &built {
            if let Some(s) = c.snaps.iter_mut().find(|s| s.key == *b.key) {
                if s.owner == spl_token::id() && b.is_writable {
                    s.data.clear();
                    s.data.extend_from_slice(&b.data.borrow());
                }
            }
        }
    });
    Ok(())
}

fn check_foreign(program: &Pubkey, infos: &[AccountInfo]) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        for i in infos {
            if let Some(s) = c.snaps.iter().find(|s| s.key == *i.key) {
                if s.owner != *program {
                    if let Ok(d) = i.data.try_borrow() {
                        if d[..] != s.data[..] && c.fault.is_none() {
                            c.fault = Some(format!("program modified data of an account it does not own"));
                        }
                    } else if c.fault.is_none() {
                        c.fault = Some("account data borrowed across a cpi".into());
                    }
                }
            }
        }
    })
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| if std::env::var("MCP").is_ok() { eprintln!("{}", i) }));
}

pub type Body<'b> = dyn Fn(&Pubkey, &[AccountInfo]) -> ProgramResult + 'b;

pub enum Target<'b> {
    /// the deployed program, through its real entry point
    Entry(&'b [u8]),
    /// a public processor function of the program
    Func(&'b Body<'b>),
    /// the SPL token program
    Token(&'b [u8]),
}

pub fn program_id() -> Pubkey {
    token_bonding_curve::id()
}

thread_local! {
    /// calls to a program other than the SPL token program
    pub static EVIL: std::cell::Cell<u64> = std::cell::Cell::new(0);
    pub static CPIS: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

thread_local! {
    /// data the last successful transaction replaced
    pub static CHANGED: RefCell<Vec<(usize, Vec<u8>)>> = RefCell::new(vec![]);
}

/// the balance of an account of wrapped SOL, 0 for all others
fn wrapped(data: &[u8], owner: &Pubkey) -> i128 {
    if *owner == spl_token::id() && data.len() == 165 && data[109] == 1 {
        return u64::from_le_bytes(data[64..72].try_into().unwrap()) as i128;
    }
    0
}

/// Runs one transaction; on failure the bank is left as it was.
pub fn exec(bank: &mut Bank, target: &Target, metas: &[Meta]) -> Result<(), Fail> {
    let program = match target {
        Target::Token(_) => spl_token::id(),
        _ => program_id(),
    };
    let mut uniq: Vec<(usize, bool, bool)> = vec![];
    for me in metas {
        match uniq.iter_mut().find(|u| u.0 == me.ix) {
            Some(u) => {
                u.1 |= me.signer;
                u.2 |= me.writable;
            }
            None => uniq.push((me.ix, me.signer, me.writable)),
        }
    }
    let mut datas: Vec<Vec<u8>> = uniq.iter().map(|u| bank.accts[u.0].data.clone()).collect();
    let mut lams: Vec<u64> = uniq.iter().map(|u| bank.accts[u.0].lamports).collect();
    let keys: Vec<Pubkey> = uniq.iter().map(|u| bank.accts[u.0].key).collect();
    let owners: Vec<Pubkey> = uniq.iter().map(|u| bank.accts[u.0].owner).collect();
    CTX.with(|c| {
        *c.borrow_mut() = Some(TxCtx {
            program,
            snaps: uniq
                .iter()
                .map(|u| {
                    let a = &bank.accts[u.0];
                    Snap { key: a.key, owner: a.owner, data: a.data.clone() }
                })
                .collect(),
            fault: None,
            cpi_failed: false,
            ncpi: 0,
            depth: 0,
        })
    });
    let res = {
        let mut infos_u: Vec<AccountInfo> = vec![];
        let mut dit = datas.iter_mut();
        let mut lit = lams.iter_mut();
        for (i, u) in uniq.iter().enumerate() {
            infos_u.push(AccountInfo {
                key: &keys[i],
                is_signer: u.1,
                is_writable: u.2,
                lamports: Rc::new(RefCell::new(lit.next().unwrap())),
                data: Rc::new(RefCell::new(&mut dit.next().unwrap()[..])),
                owner: &owners[i],
                executable: owners[i] == native_loader(),
                rent_epoch: 0,
            });
        }
        let infos: Vec<AccountInfo> = metas
            .iter()
            .map(|me| infos_u[uniq.iter().position(|u| u.0 == me.ix).unwrap()].clone())
            .collect();
        running(true);
        let r = catch_unwind(AssertUnwindSafe(|| match target {
            Target::Entry(d) => token_bonding_curve::entry(&program, &infos, d),
            Target::Func(f) => f(&program, &infos),
            Target::Token(d) => spl_token::processor::Processor::process(&program, &infos, d),
        }));
        running(false);
        r
    };
    let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
    CPIS.with(|c| c.set(c.get() + ctx.ncpi));
    match res {
        Err(_) => return Err(Fail::Panic),
        Ok(Err(e)) => return Err(Fail::Err(format!("{:?}", e))),
        Ok(Ok(())) => {}
    }
    if let Some(f) = ctx.fault {
        return Err(Fail::Runtime(f));
    }
    if ctx.cpi_failed {
        return Err(Fail::Runtime("a cross-program call failed and was ignored".into()));
    }
    for (i, u) in uniq.iter().enumerate() {
        let a = &bank.accts[u.0];
        if datas[i] != a.data {
            if !u.2 {
                return Err(Fail::Runtime("read-only account modified".into()));
            }
            if a.owner != program && datas[i] != ctx.snaps[i].data {
                return Err(Fail::Runtime("program modified data of an account it does not own".into()));
            }
        }
        // those of an account of wrapped SOL follow its balance (and are not kept)
        if lams[i] as i128 - a.lamports as i128 != wrapped(&datas[i], &a.owner) - wrapped(&a.data, &a.owner) {
            return Err(Fail::Runtime("lamports changed".into()));
        }
    }
    CHANGED.with(|ch| {
        let mut ch = ch.borrow_mut();
        ch.clear();
        for (i, u) in uniq.iter().enumerate() {
            if u.2 && bank.accts[u.0].data != datas[i] {
                let old = std::mem::replace(&mut bank.accts[u.0].data, std::mem::take(&mut datas[i]));
                ch.push((u.0, old));
            }
        }
    });
    Ok(())
}

pub fn native_loader() -> Pubkey {
    solana_program::bpf_loader::id()
}
