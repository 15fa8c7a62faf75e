use crate::report::Ctx;
pub mod common;
mod linear_checks;
mod arith;
mod attack;
mod budget;
mod codec;
mod init;
mod ledger;
mod limits;
mod quotes;
mod reasons;
mod relations;
mod requests;
mod stable;
mod trips;

pub fn run(id: &str, ctx: &Ctx) -> bool {
    match id {
        "C01" => linear_checks::c01(ctx),
        "C02" => linear_checks::c02(ctx),
        "C03" => linear_checks::c03(ctx),
        "C04" => linear_checks::c04(ctx),
        "C05" => trips::c05(ctx),
        "C15" => trips::c15(ctx),
        "C06" => limits::c06(ctx),
        "C07" => attack::c07(ctx),
        "C08" => attack::c08(ctx),
        "C09" => init::c09(ctx),
        "C10" => init::c10(ctx),
        "C14" => codec::c14(ctx),
        "C16" => arith::c16(ctx),
        "C21" => stable::c21(ctx),
        "C22" => requests::c22(ctx),
        "C17" => init::c17(ctx),
        "C11" => ledger::c11(ctx),
        "C12" => ledger::c12(ctx),
        "C13" => ledger::c13(ctx),
        "C19" => ledger::c19(ctx),
        "C20" => ledger::c20(ctx),
        "C23" => reasons::c23(ctx),
        "C25" => relations::c25(ctx),
        "C26" => relations::c26(ctx),
        "C27" => relations::c27(ctx),
        "C24" => ledger::c24(ctx),
        "C28" => budget::c28(ctx),
        "C18" => quotes::c18(ctx),
        _ => return false,
    }
    true
}
