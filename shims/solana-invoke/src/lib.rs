//! Outside the chain the published crate panics; this one makes the call through the
//! emulated runtime, like solana_program::program does.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program;

pub fn invoke(ix: &Instruction, infos: &[AccountInfo]) -> ProgramResult {
    program::invoke(ix, infos)
}
pub fn invoke_unchecked(ix: &Instruction, infos: &[AccountInfo]) -> ProgramResult {
    program::invoke_unchecked(ix, infos)
}
pub fn invoke_signed(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    program::invoke_signed(ix, infos, seeds)
}
pub fn invoke_signed_unchecked(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    program::invoke_signed_unchecked(ix, infos, seeds)
}
