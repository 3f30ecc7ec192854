//! On-chain program invoke helper to perform on-chain `transfer_checked` with
//! correct accounts

use {
    solana_account_info::AccountInfo,
    solana_address::Address,
    solana_program_error::{ProgramError, ProgramResult},
    spl_token_2022_interface::inline_spl_token,
    spl_token_2022_interface::{
        extension::transfer_hook,
        pod::PodMultisig,
        state::PackedSizeOf,
    },
};

fn is_multisig_account(account: &AccountInfo) -> bool {
    let owned_by_token_program =
        account.owner == &crate::id() || account.owner == &inline_spl_token::id();
    owned_by_token_program && account.data_len() == PodMultisig::SIZE_OF
}

/// Filters a list of accounts to find those that are valid signers for the given multisig account.
/// Returns an empty vector if the provided account is not a valid multisig account.
pub fn extract_multisig_accounts<'a, 'b>(
    multisig_account: &AccountInfo<'a>,
    accounts: &'b [AccountInfo<'a>],
) -> Result<Vec<&'b AccountInfo<'a>>, ProgramError> {
    if !is_multisig_account(multisig_account) {
        return Ok(vec![]);
    }

    let multisig_data = &multisig_account.data.borrow();
    let multisig = bytemuck::try_from_bytes::<PodMultisig>(multisig_data)
        .map_err(|_| ProgramError::InvalidArgument)?;

    // VERIF: the same list, in a buffer that never grows
    assert!(accounts.len() <= 4, "vghost: too many additional accounts");
    let mut multisig_accounts: Vec<&'b AccountInfo<'a>> = Vec::with_capacity(4);
    let p = multisig_accounts.as_mut_ptr();
    let mut n = 0;
    for account in accounts {
        if is_signer_of(multisig, account.key) {
            unsafe { p.add(n).write(account) };
            n += 1;
        }
    }
    unsafe { multisig_accounts.set_len(n) };
    Ok(multisig_accounts)
}
// VERIF: `signers[..n].contains(key)`; the runtime aborts on n > 11
fn is_signer_of(multisig: &PodMultisig, key: &Address) -> bool {
    let known = vghost::member(key.as_array().as_ptr());
    if known != 0 {
        return known == 2;
    }
    let n = multisig.n as usize;
    assert!(n <= 11);
    let mut hit = false;
    let mut i = 0;
    while i < 11 {
        hit |= (i < n) & (multisig.signers[i] == *key);
        i += 1;
    }
    hit
}

/// VERIF: assumed contract of the transfer helper, without building the
/// instruction: one transfer of `amount` from source to destination by the
/// authority, which signs itself unless it is a multisig account, in which
/// case those additional accounts that are among its signers sign; a mint with
/// a transfer hook needs the hook program among the additional accounts.
#[allow(clippy::too_many_arguments)]
fn invoke_transfer_internal<'a>(
    token_program_id: &Address,
    source_info: AccountInfo<'a>,
    mint_info: AccountInfo<'a>,
    destination_info: AccountInfo<'a>,
    authority_info: AccountInfo<'a>,
    additional_accounts: &[AccountInfo<'a>],
    amount: u64,
    decimals: u8,
    fee: Option<u64>,
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    use vghost::{privileges, push, resolve_signers, K, K0, Meta, O0, TOKEN_2022, TOKEN_SPL, TRANSFER};
    let program = K::of(token_program_id.as_array());
    let ok = program.eq(&TOKEN_2022) | (fee.is_none() & program.eq(&TOKEN_SPL));
    if !ok {
        return Err(ProgramError::IncorrectProgramId);
    }
    let k = |i: &AccountInfo| K::of(i.key.as_array());
    let multisig = is_multisig_account(&authority_info);
    let mut op = O0;
    op.program = program;
    op.kind = TRANSFER;
    op.amount = amount;
    op.checked = true;
    op.decimals = decimals;
    op.has_fee = fee.is_some();
    op.fee = fee.unwrap_or(0);
    op.n = 4;
    op.m[0] = Meta { key: k(&source_info), signer: false, writable: true, pda: false };
    op.m[1] = Meta { key: k(&mint_info), signer: false, writable: false, pda: false };
    op.m[2] = Meta { key: k(&destination_info), signer: false, writable: true, pda: false };
    op.m[3] = Meta { key: k(&authority_info), signer: !multisig, writable: false, pda: false };
    if multisig {
        let multisig_data = authority_info.data.borrow();
        let ms = bytemuck::try_from_bytes::<PodMultisig>(&multisig_data)
            .map_err(|_| ProgramError::InvalidArgument)?;
        for info in additional_accounts {
            if is_signer_of(ms, info.key) {
                op.m[op.n] = Meta { key: k(info), signer: true, writable: false, pda: false };
                op.n += 1;
            }
        }
    }
    {
        let mint_data = mint_info.try_borrow_data()?;
        let mint = spl_token_2022_interface::extension::PodStateWithExtensions::<
            spl_token_2022_interface::pod::PodMint,
        >::unpack(&mint_data)?;
        use spl_token_2022_interface::extension::BaseStateWithExtensions;
        let hook = mint
            .get_extension::<transfer_hook::TransferHook>()
            .ok()
            .map(|e| K::of(&bytemuck::cast(e.program_id)))
            .unwrap_or(K0);
        if !hook.eq(&K0) {
            let mut supplied = false;
            for info in additional_accounts {
                supplied |= k(info).eq(&hook);
            }
            if !supplied {
                return Err(ProgramError::Custom(2110272652)); // IncorrectAccount
            }
        }
    }
    let busy = source_info.try_borrow_mut_data().is_err()
        || mint_info.try_borrow_data().is_err()
        || destination_info.try_borrow_mut_data().is_err()
        || authority_info.try_borrow_data().is_err();
    if busy {
        return Err(ProgramError::AccountBorrowFailed);
    }
    let s = resolve_signers(seeds);
    privileges(&mut op, &s);
    push(op);
    // the callee's clones are dropped on the other side of the call
    core::mem::forget((source_info, mint_info, destination_info, authority_info));
    Ok(())
}

/// Helper to CPI into token-2022 on-chain, looking through the additional
/// account infos to create the proper instruction with the proper account infos
#[allow(clippy::too_many_arguments)]
pub fn invoke_transfer_checked<'a>(
    token_program_id: &Address,
    source_info: AccountInfo<'a>,
    mint_info: AccountInfo<'a>,
    destination_info: AccountInfo<'a>,
    authority_info: AccountInfo<'a>,
    additional_accounts: &[AccountInfo<'a>],
    amount: u64,
    decimals: u8,
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    invoke_transfer_internal(
        token_program_id,
        source_info,
        mint_info,
        destination_info,
        authority_info,
        additional_accounts,
        amount,
        decimals,
        None,
        seeds,
    )
}

/// Helper to CPI into token-2022 on-chain, looking through the additional
/// account infos to create the proper instruction with the fee
/// and proper account infos
#[allow(clippy::too_many_arguments)]
pub fn invoke_transfer_checked_with_fee<'a>(
    token_program_id: &Address,
    source_info: AccountInfo<'a>,
    mint_info: AccountInfo<'a>,
    destination_info: AccountInfo<'a>,
    authority_info: AccountInfo<'a>,
    additional_accounts: &[AccountInfo<'a>],
    amount: u64,
    decimals: u8,
    fee: u64,
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    invoke_transfer_internal(
        token_program_id,
        source_info,
        mint_info,
        destination_info,
        authority_info,
        additional_accounts,
        amount,
        decimals,
        Some(fee),
        seeds,
    )
}

#[cfg(test)]
mod tests {
    use {
        super::*,
        crate::{
            extension::{
                transfer_hook::TransferHook, BaseStateWithExtensionsMut, ExtensionType,
                PodStateWithExtensionsMut,
            },
            pod::{PodCOption, PodMint},
            state::Multisig,
        },
        solana_instruction::AccountMeta,
        solana_program_option::COption,
        solana_program_pack::Pack,
        spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList},
        spl_transfer_hook_interface::{
            get_extra_account_metas_address, instruction::ExecuteInstruction,
        },
        test_case::test_case,
    };

    fn setup_mint() -> Vec<u8> {
        let state = Mint {
            decimals: 10,
            is_initialized: true,
            supply: 100_000,
            mint_authority: COption::Some(Address::new_unique()),
            freeze_authority: COption::None,
        };
        let mut data = vec![0u8; Mint::LEN];
        state.pack_into_slice(&mut data);
        data
    }

    fn setup_mint_with_transfer_hook(hook_program_id: Address) -> Vec<u8> {
        let mint_len =
            ExtensionType::try_calculate_account_len::<Mint>(&[ExtensionType::TransferHook])
                .unwrap();
        let mut data = vec![0u8; mint_len];
        let mut mint =
            PodStateWithExtensionsMut::<PodMint>::unpack_uninitialized(&mut data).unwrap();

        let extension = mint.init_extension::<TransferHook>(true).unwrap();
        extension.program_id = Some(hook_program_id).try_into().unwrap();

        mint.base.mint_authority = PodCOption::some(Address::new_unique());
        mint.base.decimals = 6;
        mint.base.supply = 100_000_000.into();
        mint.base.freeze_authority = PodCOption::none();
        mint.base.is_initialized = true.into();

        mint.init_account_type().unwrap();

        data
    }

    fn setup_validation_state(
        mint_key: &Address,
        program_id: &Address,
        extra_accounts: &[AccountMeta],
    ) -> (Address, Vec<u8>) {
        let validation_key = get_extra_account_metas_address(mint_key, program_id);

        let extra_metas: Vec<ExtraAccountMeta> = extra_accounts
            .iter()
            .map(|meta| {
                ExtraAccountMeta::new_with_pubkey(&meta.pubkey, meta.is_signer, meta.is_writable)
                    .unwrap()
            })
            .collect();

        let size = ExtraAccountMetaList::size_of(extra_metas.len()).unwrap();
        let mut buffer = vec![0; size];
        ExtraAccountMetaList::init::<ExecuteInstruction>(&mut buffer, &extra_metas).unwrap();
        (validation_key, buffer)
    }

    // Parameterized test function
    #[test_case(false, false, false; "single signer")]
    #[test_case(false, true, false; "single signer with fee")]
    #[test_case(false, false, true; "single signer with transfer hook")]
    #[test_case(false, true, true; "single signer with fee and transfer hook")]
    #[test_case(true, false, false; "multisig")]
    #[test_case(true, true, false; "multisig with fee")]
    #[test_case(true, false, true; "multisig with transfer hook")]
    #[test_case(true, true, true; "multisig with fee and transfer_hook")]
    fn test_parameterized_invoke_fns(
        with_multisig: bool,
        with_fee: bool,
        with_transfer_hook: bool,
    ) {
        let token_program_id = crate::id();
        let source_key = Address::new_unique();
        let mint_key = Address::new_unique();
        let destination_key = Address::new_unique();
        let authority_key = Address::new_unique();

        let transfer_hook_program_id = Address::new_unique();
        let extra_account1_key = Address::new_unique();
        let extra_account2_key = Address::new_unique();
        let extra_account3_key = Address::new_unique();
        let extra_hook_account_metas = vec![
            AccountMeta::new(extra_account1_key, false),
            AccountMeta::new(extra_account2_key, false),
            AccountMeta::new_readonly(extra_account3_key, false),
        ];
        let (validation_key, mut validation_data) = setup_validation_state(
            &mint_key,
            &transfer_hook_program_id,
            &extra_hook_account_metas,
        );

        // Setup base account infos

        let mut source_lamports = 0;
        let source_owner = Address::new_unique();
        let source_info = AccountInfo::new(
            &source_key,
            false,
            false,
            &mut source_lamports,
            &mut [],
            &source_owner,
            false,
        );

        let mut mint_lamports = 100;
        let mint_owner = Address::new_unique();
        let mut mint_data = if with_transfer_hook {
            setup_mint_with_transfer_hook(transfer_hook_program_id)
        } else {
            setup_mint()
        };
        let mint_info = AccountInfo::new(
            &mint_key,
            false,
            false,
            &mut mint_lamports,
            &mut mint_data,
            &mint_owner,
            false,
        );

        let mut destination_lamports = 100;
        let destination_owner = Address::new_unique();
        let destination_info = AccountInfo::new(
            &destination_key,
            false,
            false,
            &mut destination_lamports,
            &mut [],
            &destination_owner,
            false,
        );

        let authority_is_signer = !with_multisig; // Authority signs only if not multisig
        let mut authority_lamports = 100;
        let authority_owner = Address::new_unique();
        let signer1_key = Address::new_unique();
        let signer2_key = Address::new_unique();
        let signer3_key = Address::new_unique();
        let signer_keys = [signer1_key, signer2_key, signer3_key];
        let mut multisig_data = vec![0; Multisig::LEN];

        // If with_multisig passed, add multisig account info

        let authority_info = if authority_is_signer {
            AccountInfo::new(
                &authority_key,
                authority_is_signer,
                false,
                &mut authority_lamports,
                &mut [],
                &authority_owner,
                false,
            )
        } else {
            // Setup multisig
            let multisig_state = Multisig {
                m: 2,
                n: 3,
                is_initialized: true,
                signers: [
                    signer1_key,
                    signer2_key,
                    signer3_key,
                    Address::default(),
                    Address::default(),
                    Address::default(),
                    Address::default(),
                    Address::default(),
                    Address::default(),
                    Address::default(),
                    Address::default(),
                ],
            };
            Multisig::pack(multisig_state, &mut multisig_data).unwrap();

            AccountInfo::new(
                &authority_key,
                false,
                false,
                &mut authority_lamports,
                &mut multisig_data,
                &token_program_id,
                false,
            )
        };

        let mut additional_accounts = vec![];

        let signer1_owner = Address::new_unique();
        let signer2_owner = Address::new_unique();
        let signer3_owner = Address::new_unique();

        let mut signer1_lamports = 100;
        let mut signer2_lamports = 100;
        let mut signer3_lamports = 100;

        if with_multisig {
            let signer1_info = AccountInfo::new(
                &signer1_key,
                true,
                false,
                &mut signer1_lamports,
                &mut [],
                &signer1_owner,
                false,
            );

            let signer2_info = AccountInfo::new(
                &signer2_key,
                true,
                false,
                &mut signer2_lamports,
                &mut [],
                &signer2_owner,
                false,
            );

            let signer3_info = AccountInfo::new(
                &signer3_key,
                true,
                false,
                &mut signer3_lamports,
                &mut [],
                &signer3_owner,
                false,
            );

            additional_accounts.extend(vec![signer1_info, signer2_info, signer3_info]);
        };

        // If with_transfer_hook passed, add account info related to transfer hooks

        let hook_program_owner = Address::new_unique();
        let extra_account1_owner = Address::new_unique();
        let extra_account2_owner = Address::new_unique();
        let extra_account3_owner = Address::new_unique();

        let mut validation_lamports = 100;
        let mut hook_program_lamports = 100;
        let mut extra_account1_lamports = 100;
        let mut extra_account2_lamports = 100;
        let mut extra_account3_lamports = 100;

        if with_transfer_hook {
            let validation_info = AccountInfo::new(
                &validation_key,
                false,
                false,
                &mut validation_lamports,
                &mut validation_data,
                &transfer_hook_program_id,
                false,
            );

            let hook_program_info = AccountInfo::new(
                &transfer_hook_program_id,
                false,
                false,
                &mut hook_program_lamports,
                &mut [],
                &hook_program_owner,
                true,
            );

            let extra_account1_info = AccountInfo::new(
                &extra_account1_key,
                false,
                true,
                &mut extra_account1_lamports,
                &mut [],
                &extra_account1_owner,
                false,
            );

            let extra_account2_info = AccountInfo::new(
                &extra_account2_key,
                true,
                false,
                &mut extra_account2_lamports,
                &mut [],
                &extra_account2_owner,
                false,
            );

            let extra_account3_info = AccountInfo::new(
                &extra_account3_key,
                false,
                true,
                &mut extra_account3_lamports,
                &mut [],
                &extra_account3_owner,
                false,
            );

            additional_accounts.extend(vec![
                validation_info,
                hook_program_info,
                extra_account1_info,
                extra_account2_info,
                extra_account3_info,
            ]);
        };

        let (instruction, account_infos) = transfer_instruction_and_account_infos(
            &token_program_id,
            source_info.clone(),
            mint_info.clone(),
            destination_info.clone(),
            authority_info.clone(),
            &additional_accounts,
            200,
            6,
            with_fee.then_some(120),
        )
        .unwrap();
        let account_keys = account_infos
            .into_iter()
            .map(|info| *info.key)
            .collect::<Vec<_>>();

        // Calculate expected accounts
        let base_account_count = 4; // source, mint, destination, authority
        let multisig_account_count = if with_multisig { signer_keys.len() } else { 0 };
        let transfer_hook_account_count = 2; // validation account and program ID
        let extra_hook_account_count = extra_hook_account_metas.len();

        let mut expected_account_count = base_account_count;
        if with_multisig {
            expected_account_count += multisig_account_count;
        };
        if with_transfer_hook {
            expected_account_count += transfer_hook_account_count + extra_hook_account_count;
        }

        // Check instruction
        assert_eq!(instruction.program_id, token_program_id);
        assert_eq!(instruction.accounts.len(), expected_account_count);

        // Verify base account metas
        assert_eq!(instruction.accounts[0], AccountMeta::new(source_key, false));
        assert_eq!(
            instruction.accounts[1],
            AccountMeta::new_readonly(mint_key, false)
        );
        assert_eq!(
            instruction.accounts[2],
            AccountMeta::new(destination_key, false)
        );
        assert_eq!(
            instruction.accounts[3],
            AccountMeta::new_readonly(authority_key, authority_is_signer)
        );

        // Verify multisig signer metas if multisig
        if with_multisig {
            for (i, signer_key) in signer_keys.iter().enumerate() {
                assert_eq!(
                    instruction.accounts[4 + i],
                    AccountMeta::new_readonly(*signer_key, true),
                );
            }
        }

        // Verify transfer hook accounts
        let mut hook_accounts_start = base_account_count;
        if with_multisig {
            hook_accounts_start += multisig_account_count;
        }

        if with_transfer_hook {
            // Verify extra hook accounts first
            // these are added before the validation account
            for (i, extra_meta) in extra_hook_account_metas.iter().enumerate() {
                assert_eq!(instruction.accounts[hook_accounts_start + i], *extra_meta);
            }

            // Verify validation account - added after the extra accounts
            assert_eq!(
                instruction.accounts[hook_accounts_start + extra_hook_account_count],
                AccountMeta::new_readonly(validation_key, false),
            );

            // Verify program ID is included at the end
            assert_eq!(
                instruction.accounts[expected_account_count - 1],
                AccountMeta::new_readonly(transfer_hook_program_id, false),
            );
        }

        // Verify account keys match
        assert_eq!(account_keys.len(), expected_account_count);
        assert_eq!(account_keys[0], source_key);
        assert_eq!(account_keys[1], mint_key);
        assert_eq!(account_keys[2], destination_key);
        assert_eq!(account_keys[3], authority_key);

        // Verify multisig signers if multisig
        if with_multisig {
            for (i, signer_key) in signer_keys.iter().enumerate() {
                assert_eq!(account_keys[4 + i], *signer_key);
            }
        }

        if with_transfer_hook {
            // Verify extra hook account keys
            assert_eq!(account_keys[hook_accounts_start], extra_account1_key);
            assert_eq!(account_keys[hook_accounts_start + 1], extra_account2_key);
            assert_eq!(account_keys[hook_accounts_start + 2], extra_account3_key);

            // Verify validation account key
            assert_eq!(
                account_keys[hook_accounts_start + extra_hook_account_count],
                validation_key
            );

            // Verify program ID key
            assert_eq!(
                account_keys[expected_account_count - 1],
                transfer_hook_program_id
            );
        }
    }

    #[test]
    fn test_extract_multisig_when_account_not_owned_by_token_program() {
        let key = Address::new_unique();
        let wrong_owner = Address::new_unique();
        let mut lamports = 100;
        let mut data = vec![0; Multisig::LEN];

        let multisig = AccountInfo::new(
            &key,
            false,
            false,
            &mut lamports,
            &mut data,
            &wrong_owner,
            false,
        );

        let accounts = vec![];

        let result_accounts = extract_multisig_accounts(&multisig, &accounts).unwrap();
        assert!(result_accounts.is_empty());
    }

    #[test]
    fn test_extract_multisig_when_account_not_multisig() {
        let key = Address::new_unique();
        let owner = crate::id();
        let mut lamports = 100;
        let mut data = vec![0; 10]; // Wrong size for a multisig account

        let not_multisig =
            AccountInfo::new(&key, false, false, &mut lamports, &mut data, &owner, false);

        let accounts = vec![];

        let result_accounts = extract_multisig_accounts(&not_multisig, &accounts).unwrap();
        assert!(result_accounts.is_empty());
    }

    #[test]
    fn test_extract_multisig_success() {
        let multisig_key = Address::new_unique();
        let owner = crate::id();
        let signer1_key = Address::new_unique();
        let signer2_key = Address::new_unique();
        let mut multisig_data = vec![0; Multisig::LEN];
        let multisig_state = Multisig {
            m: 2,
            n: 2,
            is_initialized: true,
            signers: [
                signer1_key,
                signer2_key,
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
                Address::default(),
            ],
        };
        Multisig::pack(multisig_state, &mut multisig_data).unwrap();

        let mut lamports = 100;
        let multisig_account = AccountInfo::new(
            &multisig_key,
            false,
            false,
            &mut lamports,
            &mut multisig_data,
            &owner,
            false,
        );

        let signer1_owner = Address::new_unique();
        let signer2_owner = Address::new_unique();

        let mut signer1_lamports = 100;
        let mut signer2_lamports = 100;

        let signer1_info = AccountInfo::new(
            &signer1_key,
            true,
            false,
            &mut signer1_lamports,
            &mut [],
            &signer1_owner,
            false,
        );

        let signer2_info = AccountInfo::new(
            &signer2_key,
            true,
            false,
            &mut signer2_lamports,
            &mut [],
            &signer2_owner,
            false,
        );

        // Accounts that should not be included

        let extra_account1_key = Address::new_unique();
        let extra_account2_key = Address::new_unique();

        let extra_account1_owner = Address::new_unique();
        let extra_account2_owner = Address::new_unique();

        let mut extra_account1_lamports = 100;
        let mut extra_account2_lamports = 100;

        let extra_account1_info = AccountInfo::new(
            &extra_account1_key,
            false,
            true,
            &mut extra_account1_lamports,
            &mut [],
            &extra_account1_owner,
            false,
        );

        let extra_account2_info = AccountInfo::new(
            &extra_account2_key,
            true,
            false,
            &mut extra_account2_lamports,
            &mut [],
            &extra_account2_owner,
            false,
        );

        let system_program_key = Address::default(); // System program has default pubkey
        let system_program_owner = Address::new_unique();
        let mut system_program_lamports = 100;
        let system_program_info = AccountInfo::new(
            &system_program_key,
            false,
            false,
            &mut system_program_lamports,
            &mut [],
            &system_program_owner,
            false,
        );

        let accounts = vec![
            extra_account1_info,
            extra_account2_info,
            system_program_info,
            signer1_info.clone(),
            signer2_info.clone(),
        ];

        let result_accounts = extract_multisig_accounts(&multisig_account, &accounts).unwrap();

        assert_eq!(result_accounts.len(), 2);
        assert_eq!(result_accounts[0].data_len(), signer1_info.data_len());
        assert_eq!(result_accounts[0].owner, signer1_info.owner);
        assert_eq!(result_accounts[0].key, signer1_info.key);
        assert_eq!(result_accounts[0].is_writable, signer1_info.is_writable);
        assert_eq!(result_accounts[0].is_signer, signer1_info.is_signer);
        assert_eq!(result_accounts[0].executable, signer1_info.executable);
        assert_eq!(result_accounts[0].lamports, signer1_info.lamports);

        assert_eq!(result_accounts[1].data_len(), signer2_info.data_len());
        assert_eq!(result_accounts[1].owner, signer2_info.owner);
        assert_eq!(result_accounts[1].key, signer2_info.key);
        assert_eq!(result_accounts[1].is_writable, signer2_info.is_writable);
        assert_eq!(result_accounts[1].is_signer, signer2_info.is_signer);
        assert_eq!(result_accounts[1].executable, signer2_info.executable);
        assert_eq!(result_accounts[1].lamports, signer2_info.lamports);
    }
}
