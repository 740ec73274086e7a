//! Dispatch to program code. Real: presale, SPL Token, Token-2022, SPL Memo. Stub: System program, transfer-hook program.
use crate::bank::with_ctx;
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta,
    program_error::ProgramError, pubkey::Pubkey, system_instruction::SystemInstruction, system_program,
};
use spl_tlv_account_resolution::state::ExtraAccountMetaList;
use spl_token_2022::extension::{transfer_hook, StateWithExtensions};
use spl_transfer_hook_interface::{get_extra_account_metas_address, instruction as hook_ix};

pub fn hook_program() -> Pubkey {
    Pubkey::new_from_array(*b"psim-transfer-hook-program-00001")
}
/// A program that only owns look-alike accounts made by an attacker.
pub fn evil_program() -> Pubkey {
    Pubkey::new_from_array(*b"psim-evil-look-alike-owner-00001")
}

pub fn name(p: &Pubkey) -> &'static str {
    if *p == presale::ID {
        "presale"
    } else if *p == spl_token::ID {
        "token"
    } else if *p == spl_token_2022::ID {
        "token22"
    } else if *p == spl_memo::ID {
        "memo"
    } else if *p == system_program::ID {
        "system"
    } else if *p == hook_program() {
        "hook"
    } else {
        "?"
    }
}

pub fn dispatch(p: &Pubkey, infos: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    if *p == presale::ID {
        presale::entry(p, infos, data)
    } else if *p == spl_token::ID {
        spl_token::processor::Processor::process(p, infos, data)
    } else if *p == spl_token_2022::ID {
        token22(p, infos, data)
    } else if *p == spl_memo::ID {
        spl_memo::processor::process_instruction(p, infos, data)
    } else if *p == system_program::ID {
        system(infos, data)
    } else if *p == hook_program() {
        hook(infos, data)
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

/// Token-2022 itself is the real processor; natively its CPI into the transfer-hook program is compiled out
/// (`solana_cpi::invoke` is a no-op off-chain), so the same call is made here after a transfer.
fn token22(p: &Pubkey, infos: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    spl_token_2022::processor::Processor::process(p, infos, data)?;
    let amount = match data {
        [12, rest @ ..] if rest.len() >= 8 => u64::from_le_bytes(rest[..8].try_into().unwrap()),
        [26, 1, rest @ ..] if rest.len() >= 8 => u64::from_le_bytes(rest[..8].try_into().unwrap()),
        _ => return Ok(()),
    };
    let (src, mint, dst, auth) = (&infos[0], &infos[1], &infos[2], &infos[3]);
    if src.key == dst.key {
        return Ok(()); // the real processor returns before the hook
    }
    let hook_id = {
        let d = mint.try_borrow_data()?;
        let m = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(&d)?;
        transfer_hook::get_program_id(&m)
    };
    let Some(hook_id) = hook_id else { return Ok(()) };
    let extra = &infos[4..];
    let mut ix = hook_ix::execute(&hook_id, src.key, mint.key, dst.key, auth.key, amount);
    // as in the real processor the hook gets no privileges on these
    let vkey = get_extra_account_metas_address(mint.key, &hook_id);
    let mut cpi = vec![src.clone(), mint.clone(), dst.clone(), auth.clone()];
    if let Some(v) = extra.iter().find(|x| *x.key == vkey) {
        ix.accounts.push(AccountMeta::new_readonly(vkey, false));
        cpi.push(v.clone());
        ExtraAccountMetaList::add_to_cpi_instruction::<hook_ix::ExecuteInstruction>(
            &mut ix,
            &mut cpi,
            &v.try_borrow_data()?,
            extra,
        )?;
    }
    solana_program::program::invoke(&ix, &cpi)
}

/// Counts executions in its state account; fails when told to (byte 8 = 1).
fn hook(infos: &'static [AccountInfo<'static>], _data: &[u8]) -> ProgramResult {
    let Some(st) = infos.get(5) else { return Err(ProgramError::NotEnoughAccountKeys) };
    if *st.owner != hook_program() || !st.is_writable {
        return Err(ProgramError::InvalidAccountOwner);
    }
    let mut d = st.try_borrow_mut_data()?;
    if d[8] == 1 {
        return Err(ProgramError::Custom(777));
    }
    let n = u64::from_le_bytes(d[..8].try_into().unwrap()) + 1;
    d[..8].copy_from_slice(&n.to_le_bytes());
    Ok(())
}

fn system(infos: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let bad = || ProgramError::Custom(1);
    let key = |i: usize| infos.get(i).map(|a| *a.key).ok_or(ProgramError::NotEnoughAccountKeys);
    with_ctx(|c| {
        let allocate = |c: &mut crate::bank::TxCtx, k: &Pubkey, n: u64| -> ProgramResult {
            let (_, len, owner) = c.sys_get(k);
            if !c.frame_flags(k).0 {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if len != 0 || owner != system_program::ID || n > 10 * 1024 {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            c.sys_allocate(k, n as usize);
            Ok(())
        };
        let assign = |c: &mut crate::bank::TxCtx, k: &Pubkey, o: &Pubkey| -> ProgramResult {
            let (_, _, owner) = c.sys_get(k);
            if owner == *o {
                return Ok(());
            }
            if !c.frame_flags(k).0 {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if owner != system_program::ID {
                return Err(bad());
            }
            c.sys_assign(k, o);
            Ok(())
        };
        let transfer = |c: &mut crate::bank::TxCtx, a: &Pubkey, b: &Pubkey, n: u64| -> ProgramResult {
            let (la, len, owner) = c.sys_get(a);
            if !c.frame_flags(a).0 {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if len != 0 || owner != system_program::ID {
                return Err(ProgramError::InvalidArgument);
            }
            if la < n {
                return Err(bad());
            }
            c.sys_set_lamports(a, la - n);
            let (lb, _, _) = c.sys_get(b);
            c.sys_set_lamports(b, lb + n);
            Ok(())
        };
        match ix {
            SystemInstruction::CreateAccount { lamports, space, owner } => {
                let (from, to) = (key(0)?, key(1)?);
                if c.sys_get(&to).0 > 0 {
                    return Err(ProgramError::Custom(0));
                }
                allocate(c, &to, space)?;
                assign(c, &to, &owner)?;
                transfer(c, &from, &to, lamports)
            }
            SystemInstruction::Transfer { lamports } => transfer(c, &key(0)?, &key(1)?, lamports),
            SystemInstruction::Allocate { space } => allocate(c, &key(0)?, space),
            SystemInstruction::Assign { owner } => assign(c, &key(0)?, &owner),
            _ => Err(ProgramError::InvalidInstructionData),
        }
    })
}
