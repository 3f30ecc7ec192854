use {
    crate::processor::Processor,
    solana_account_info::{next_account_info, AccountInfo},
    solana_address::Address,
    solana_msg::msg,
    solana_nullable::MaybeNull,
    solana_program_error::ProgramResult,
    spl_token_2022_interface::{
        check_program_account,
        error::TokenError,
        extension::{
            group_pointer::{
                instruction::{
                    GroupPointerInstruction, InitializeInstructionData, UpdateInstructionData,
                },
                GroupPointer,
            },
            BaseStateWithExtensionsMut, PodStateWithExtensionsMut,
        },
        instruction::{decode_instruction_data, decode_instruction_type},
        pod::PodMint,
    },
};

fn process_initialize(
    _program_id: &Address,
    accounts: &[AccountInfo],
    authority: &MaybeNull<Address>,
    group_address: &MaybeNull<Address>,
) -> ProgramResult {
    let account_info_iter = &mut accounts.iter();
    let mint_account_info = next_account_info(account_info_iter)?;
    check_program_account(mint_account_info.owner)?;

    let mut mint_data = mint_account_info.data.borrow_mut();
    let mut mint = PodStateWithExtensionsMut::<PodMint>::unpack_uninitialized(&mut mint_data)?;

    if Option::<Address>::from(*authority).is_none()
        && Option::<Address>::from(*group_address).is_none()
    {
        msg!(
            "The group pointer extension requires at least an authority or an address for \
             initialization, neither was provided"
        );
        Err(TokenError::InvalidInstruction)?;
    }

    let extension = mint.init_extension::<GroupPointer>(true)?;
    extension.authority = *authority;
    extension.group_address = *group_address;
    Ok(())
}

fn process_update(
    program_id: &Address,
    accounts: &[AccountInfo],
    new_group_address: &MaybeNull<Address>,
) -> ProgramResult {
    let account_info_iter = &mut accounts.iter();
    let mint_account_info = next_account_info(account_info_iter)?;
    let owner_info = next_account_info(account_info_iter)?;
    let owner_info_data_len = owner_info.data_len();
    check_program_account(mint_account_info.owner)?;

    let mut mint_data = mint_account_info.data.borrow_mut();
    let mut mint = PodStateWithExtensionsMut::<PodMint>::unpack(&mut mint_data)?;
    let extension = mint.get_extension_mut::<GroupPointer>()?;
    let authority =
        Option::<Address>::from(extension.authority).ok_or(TokenError::NoAuthorityExists)?;

    Processor::validate_owner(
        program_id,
        &authority,
        owner_info,
        owner_info_data_len,
        account_info_iter.as_slice(),
    )?;

    extension.group_address = *new_group_address;
    Ok(())
}

pub(crate) fn process_instruction(
    program_id: &Address,
    accounts: &[AccountInfo],
    input: &[u8],
) -> ProgramResult {
    check_program_account(program_id)?;
    match decode_instruction_type(input)? {
        GroupPointerInstruction::Initialize => {
            msg!("GroupPointerInstruction::Initialize");
            let InitializeInstructionData {
                authority,
                group_address,
            } = decode_instruction_data(input)?;
            process_initialize(program_id, accounts, authority, group_address)
        }
        GroupPointerInstruction::Update => {
            msg!("GroupPointerInstruction::Update");
            let UpdateInstructionData { group_address } = decode_instruction_data(input)?;
            process_update(program_id, accounts, group_address)
        }
    }
}
