//! A consumer as older clients write it (Anchor before 1.0): accounts completed by #[vrf], in three
//! forms, the request made with invoke_signed_vrf.
#![allow(unexpected_cfgs, deprecated)]
use anchor_lang::prelude::*;
use ephemeral_vrf_sdk::anchor::{vrf, VrfProgram};
use ephemeral_vrf_sdk::instructions::{create_request_randomness_ix, create_request_regular_randomness_ix, RequestRandomnessParams};
use ephemeral_vrf_sdk::types::SerializableAccountMeta;

declare_id!("CDiutifqugEkabdqwc5TK3FmSAgFpkP3RPE1642BCEhi");

fn instruction(payer: Pubkey, oracle_queue: Pubkey, a: Args) -> ephemeral_vrf_sdk::compat::Instruction {
    let p = RequestRandomnessParams {
        payer,
        oracle_queue,
        callback_program_id: crate::ID,
        callback_discriminator: a.disc,
        accounts_metas: Some(
            a.metas.iter().map(|m| SerializableAccountMeta { pubkey: m.key, is_signer: m.signer, is_writable: m.writable }).collect(),
        ),
        caller_seed: a.seed,
        callback_args: Some(a.args),
    };
    if a.prio == 1 {
        create_request_randomness_ix(p)
    } else {
        create_request_regular_randomness_ix(p)
    }
}

#[program]
pub mod consumer_compat {
    use super::*;

    #[instruction(discriminator = [1])]
    pub fn ask(ctx: Context<Ask>, a: Args) -> Result<()> {
        let ix = instruction(ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key(), a);
        ctx.accounts.invoke_signed_vrf(&ctx.accounts.payer.to_account_info(), &ix)?;
        Ok(())
    }
    #[instruction(discriminator = [2])]
    pub fn ask_some(ctx: Context<AskSome>, a: Args) -> Result<()> {
        let ix = instruction(ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key(), a);
        ctx.accounts.invoke_signed_vrf(&ctx.accounts.payer.to_account_info(), &ix)?;
        Ok(())
    }
    #[instruction(discriminator = [3])]
    pub fn ask_own(ctx: Context<AskOwn>, a: Args) -> Result<()> {
        let ix = instruction(ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key(), a);
        ctx.accounts.invoke_signed_vrf(&ctx.accounts.payer.to_account_info(), &ix)?;
        Ok(())
    }
}

#[derive(AnchorSerialize, AnchorDeserialize)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}
#[derive(AnchorSerialize, AnchorDeserialize)]
pub struct Args {
    pub prio: u8,
    pub seed: [u8; 32],
    pub disc: Vec<u8>,
    pub metas: Vec<Meta>,
    pub args: Vec<u8>,
}

#[vrf]
#[derive(Accounts)]
pub struct Ask<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: any queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
}
/// declares some of the accounts itself
#[vrf]
#[derive(Accounts)]
pub struct AskSome<'info> {
    pub system_program: Program<'info, System>,
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the slot hashes
    pub slot_hashes: AccountInfo<'info>,
    /// CHECK: any queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
}
/// declares all of them itself
#[vrf]
#[derive(Accounts)]
pub struct AskOwn<'info> {
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: the identity of this program
    pub program_identity: AccountInfo<'info>,
    /// CHECK: any queue
    #[account(mut)]
    pub oracle_queue: AccountInfo<'info>,
    /// CHECK: the slot hashes
    pub slot_hashes: AccountInfo<'info>,
    pub system_program: Program<'info, System>,
    #[account(mut)]
    pub payer: Signer<'info>,
}
