#!/usr/bin/env python3
"""Generates properties.jsonl, checks.json and MANIFEST.json (development aid;
its output is committed)."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
P = 'program/src/'
PR, ME, MX, LIB, INS = P + 'processor.rs', P + 'metadata.rs', P + 'metaplex.rs', P + 'lib.rs', P + 'instruction.rs'

# what every check trusts
TRUSTED = [
    'Kani 0.68.0 (MIR to goto translation), CBMC 6.11.0, CaDiCaL, rustc nightly bundled with Kani',
    'env/vghost + env/solana-cpi: assumed contract of the Solana runtime (CPI privilege rules, PDA signing, refused calls abort the transaction)',
    'env/solana-address: assumed contract of find_program_address/create_program_address (a function of seeds and program, collision free, off the curve)',
    'env/solana-sysvar, env/solana-rent: assumed contract of Clock/Rent (any epoch; the rent of a size is a function of the size)',
    'env/spl-token-2022-interface: assumed contract of TLV parsing (an extension is found exactly if it is there; its bytes are the program\'s input)',
]
ASSUME = [
    'solana-msg logging has no effect',
    'the accounts of one call do not share data buffers, except by being passed under one key (aliasing of keys is explored, aliasing of buffers is the runtime\'s)',
    'token-program invariants stated in the harness: option tags of mints are 0 or 1, a transfer fee is at most 100 %, classic mints have no extensions',
    'the callee contracts of spl-token, Token-2022, System and Metaplex are what their documented instruction encodings say (env/solana-cpi decode); their bodies are not verified',
]
ENVX = {
    'xfer': 'env/spl-token-2022: extract_multisig_accounts rewritten without a growing vector (at most 4 additional accounts); invoke_transfer_checked[_with_fee] by contract (one transfer of the amount, authorised by the authority or, for a multisig, by its signers among the additional accounts; a mint with a transfer hook needs the hook program)',
    'hook': 'env/spl-transfer-hook-interface: onchain account resolution replaced by its contract (adds accounts read-only, without privileges)',
    'extl': 'env/spl-token-2022-interface: try_for_each_required_init_account_extension / get_extension_types by contract (the set of extensions is symbolic)',
    'meta': 'env/spl-token-metadata-interface, env/mpl-token-metadata, env/serde_json: the upstream types and builders; (de)serialisation by contract (what is written is what is read, refused if malformed); Metaplex and Token-2022 metadata programs by their documented effect',
    'map': 'program/src/verif_map.rs (cfg(kani)): HashMap replaced by a list-backed map of the same contract',
}
PROPS = {}
HOOKS = ['fe132f8667fa4fbba2894831eb5ec96f7ce52414']


def prop(id, title, statement, over, text, why, files, mech, **k):
    assert len(title) <= 80, id
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **k)


W1 = ['wrap::wrap', 'wrap::extras']
WM = ['wrap::multisig_three', 'wrap::multisig_both', 'wrap::multisig_first', 'wrap::multisig_second']
U1 = ['unwrap::unwrap', 'unwrap::extras']
# the assumed contract of calculate_fee, on its real code
FEE = ['dep::fee_' + x for x in 'some bounds one amount all lemma'.split()]
UM = ['unwrap::multisig_three', 'unwrap::multisig_both', 'unwrap::multisig_first', 'unwrap::multisig_second']
CF = ['create::fresh_2022', 'create::fresh_2022_idem', 'create::fresh_spl', 'create::fresh_spl_strict', 'create::fresh_other']
CX = ['create::existing_idem', 'create::existing_strict']
PT = ['pointer::create', 'pointer::update']
ES = ['escrow::close%d' % i for i in range(16)]
ESQ = ['escrow::close%d' % i for i in (0, 1, 2, 4, 8, 15)]
FW = ['processor::process_wrap', 'processor::process_instruction', 'lib::validate_mint_authority and the address derivations', 'instruction::TokenWrapInstruction::unpack',
      'spl_token_2022::onchain::invoke_transfer_checked(_with_fee) and TransferFeeConfig::calculate_epoch_fee call sites']
FU = ['processor::process_unwrap', 'processor::process_instruction', 'the address derivations of lib.rs', 'instruction::TokenWrapInstruction::unpack',
      'spl_token_2022::onchain::invoke_transfer_checked call site']
XB = 'loop-free in amounts, keys, flags and account bytes (full domain). Bounded: at most 3 accounts beyond the nine; account data beyond the base state is an abstract TLV set'
MB = 'full domain in amounts, keys, flags and bytes; bounded: up to three accounts beyond the nine, membership fixed per harness to (all three), (both), (first), (second)'

prop('C01', 'Every wrapped token is backed by an unwrapped token in escrow',
     'A successful wrap mints exactly what the escrow of that wrapped mint was credited: the requested amount less the transfer fee the unwrapped mint withholds. '
     'A successful unwrap never releases more from the escrow than it burns. So no history of wraps and unwraps leaves more wrapped tokens than escrowed tokens.',
     ['inputs', 'histories'], 'every amount, every fee configuration and epoch, every choice of accounts including repeated ones, every history of wraps and unwraps (by induction: each step keeps supply <= escrow)',
     'The tests wrap a handful of amounts with one fee configuration and distinct accounts; arithmetic at the edges, the fee change at an epoch and aliased accounts (source equal to escrow) are never sampled together.',
     [PR], [('wrap: fee computed before the transfer, net amount minted', PR + ' process_wrap'), ('unwrap: burn before release of the same amount', PR + ' process_unwrap')],
     h=W1 + U1, th=WM + UM + FEE, f=FW + FU + ['TransferFee::calculate_fee (real dependency code, thorough)'], b=XB, x=['xfer', 'hook'])
prop('C02', 'Unwrapping burns and releases exactly the requested amount',
     'A successful unwrap burns the requested amount of the wrapped mint from the account given and sends the same amount of the unwrapped mint from the escrow to the recipient given. Nothing else moves.',
     ['inputs'], 'every amount, every nine accounts and additional accounts, both pairs of token programs',
     'Tests unwrap a few amounts with honest accounts; that no other combination of accounts reaches another mint, account or amount is a statement over all inputs.',
     [PR], [('burn then transfer from escrow signed by the authority', PR + ' process_unwrap')], h=U1, th=UM, f=FU, b=XB, x=['xfer', 'hook'])
prop('C03', "The program's own addresses sign only the calls documented for them",
     "An address controlled by the program signs only: minting and metadata updates of its own wrapped mint, releases from and closing of its own escrow, and the creation of the account at that very address. "
     'Every successful instruction makes exactly the documented calls on other programs.',
     ['inputs'], 'every instruction, every accounts list (keys, owners, flags and data are arbitrary), every amount',
     'A test sees the calls of the transactions it sends; that no input whatever makes the program sign for another address or make another call cannot be sampled.',
     [PR, LIB], [('signer seeds are built from the checked addresses', PR + ' invoke_signed call sites'), ('seed helpers', LIB)],
     h=['wrap::wrap', 'unwrap::unwrap', 'create::fresh_2022', 'create::fresh_spl', 'pointer::create', 'pointer::update', 'escrow::close1', 'meta::sync22_n_ab', 'meta::sync22_ab_ca', 'meta::syncspl_plain_new', 'meta::syncspl_plain_old'],
     th=['wrap::extras', 'unwrap::extras'] + WM + UM + CF[1:2] + CF[3:] + ES[:1] + ES[2:] + ['meta::bind22_0', 'meta::bindspl_0', 'meta::bind22_2', 'meta::bindspl_2'], f=FW + FU + ['processor::process_create_mint', 'processor::process_set_canonical_pointer', 'processor::process_close_stuck_escrow', 'processor::process_sync_metadata_to_token_2022', 'processor::process_sync_metadata_to_spl_token'], b=XB + '. Metadata syncs: two shapes each (quick; any accounts in the thorough tier, see C14 and C15)', x=['xfer', 'hook', 'extl', 'meta', 'map'])
prop('C04', 'Only canonical wrapped mints, authorities and escrows are ever used',
     'A wrap or unwrap succeeds only with the wrapped mint, the mint authority and the escrow that are derived from the given unwrapped mint and token programs, and only with the two genuine token programs.',
     ['inputs'], 'every list of accounts: any keys, owners, flags and contents, for every amount',
     'The tests substitute one wrong account at a time from a short list of mistakes; acceptance of any other substituted account needs all keys.',
     [PR, LIB], [('wrapped mint, authority and escrow comparisons', PR + ' process_wrap, process_unwrap'), ('address derivations', LIB)],
     h=W1 + U1, th=WM + UM, f=FW + FU, b=XB, x=['xfer', 'hook'])
prop('C05', 'A wrap or unwrap of zero tokens is refused',
     'Whatever the accounts, neither wrapping nor unwrapping an amount of zero succeeds.',
     ['inputs'], 'every accounts list, with and without additional accounts and multisig authorities',
     'The tests try zero once per instruction with honest accounts.',
     [PR], [('amount == 0 check', PR + ' process_wrap, process_unwrap')], h=W1 + U1, th=WM + UM, f=FW + FU, b=XB, x=['xfer', 'hook'])
prop('C06', 'Deposits are only accepted into an escrow the authority owns',
     'A wrap succeeds only if the escrow token account is owned by the wrapped mint authority at that moment, so that every deposit can be released again and nobody else can move it.',
     ['inputs', 'histories'], 'every content of the escrow account, every owner field, including accounts whose owner was changed after creation',
     'The tests try one wrong owner; the ownership must be read from the right bytes of any account, for any base and extended layout.',
     [PR], [('escrow owner check', PR + ' process_wrap')], h=W1, th=WM, f=FW, b=XB, x=['xfer', 'hook'])
prop('C07', 'Tokens move only with the authorisation of their owner',
     "The user's tokens are moved (deposited or burned) only in a call authorised by the given transfer authority and, for a multisig, by exactly those additional accounts that are its signers. "
     "No address of the program ever authorises a movement of a user's tokens, and no signature is passed on that the user did not give.",
     ['inputs'], 'every transfer authority account (any bytes, any owner, any flags) and additional accounts, any of which may be signers of the multisig',
     'The tests use fixed 2-of-3 multisigs; which of the additional accounts is passed as signer depends on the bytes of the multisig account and of every key.',
     [PR], [('extraction of multisig signers', PR + ' process_wrap, process_unwrap'), ('transfer and burn are unsigned by PDAs', PR)],
     h=['wrap::multisig_three', 'wrap::multisig_second', 'wrap::wrap', 'unwrap::multisig_three', 'unwrap::extras'], th=['wrap::multisig_both', 'unwrap::multisig_both', 'wrap::multisig_first', 'unwrap::multisig_first', 'wrap::extras', 'unwrap::multisig_second', 'unwrap::unwrap'], f=FW + FU + ['spl_token_2022::onchain::extract_multisig_accounts call site'], b=MB, x=['xfer', 'hook'])
FC = ['processor::process_create_mint::<DefaultToken2022Customizer>', 'processor::process_instruction', 'mint_customizer::default_token_2022', 'lib address derivations']
CB = 'none in keys, lamports, mint bytes and flags; one harness per wrapped token program (Token-2022, classic, any other) and idempotency flag'
prop('C08', 'A new wrapped mint mirrors its unwrapped mint, with a true backpointer',
     'When a wrapped mint is created it has the decimals and the freeze authority (or none) of the unwrapped mint, its mint authority is the derived one, it belongs to the wrapped token program, and the backpointer account records the address of the unwrapped mint.',
     ['inputs'], 'every unwrapped mint (decimals, freeze authority, extensions, either token program), every state of the accounts to create',
     'Tests create mints from a few fixed unwrapped mints; that the two are equal for every mint content needs all byte values.',
     [PR, P + 'state.rs'], [('initialize_mint2 with the unwrapped fields', PR + ' process_create_mint'), ('Backpointer write', PR + ' process_create_mint')], h=CF[:1] + CF[2:3], th=CF[1:2] + CF[3:4], f=FC, b=CB)
prop('C09', 'Creating a wrapped mint again never changes the existing one',
     'If the wrapped mint or its backpointer already holds data, creating it fails, or, when asked to be idempotent, succeeds without any call or change. Idempotent success vouches that the accounts are the canonical ones, of the right owners, for a mint of a genuine token program.',
     ['inputs', 'histories'], 'every content and owner of the existing accounts, with either or both of them present',
     'Tests repeat creation once after an honest creation; mixed states (one account present, wrong owner) come from histories they do not run.',
     [PR], [('idempotency check', PR + ' process_create_mint')], h=CX, th=CF, f=FC, b='existing accounts hold 0 or 8 bytes of any content (token-wrap does not look at their contents)', k='existing')
prop('C10', 'A wrapped mint is only created at its canonical, funded address',
     'Creation succeeds only at the addresses derived from the unwrapped mint and the wrapped token program, only for an unwrapped mint owned by a genuine token program, only under a genuine wrapped token program, and only if both new accounts already hold the rent-exempt minimum.',
     ['inputs'], 'every key, owner and balance of the accounts',
     'The tests try a wrong address and one underfunded account each; the boundary for every size and balance is not sampled.',
     [PR, LIB], [('address, owner and rent checks', PR + ' process_create_mint')], h=['create::fresh_2022', 'create::fresh_spl', 'create::fresh_other'], th=CF[1:2] + CF[3:4], f=FC, b=CB)
prop('C11', 'Token-2022 wrapped mints have exactly the documented extensions',
     'A Token-2022 wrapped mint is created with confidential transfers (no authority, automatic approval, no auditor) and a metadata pointer to itself controlled by the mint authority, set up before the mint is initialised and with no other extension. A classic wrapped mint has none.',
     ['inputs'], 'every unwrapped mint and every state of the accounts to create',
     'The tests look at one created mint; that no input changes the set, the order or the authorities is a statement over all inputs.',
     [PR, P + 'mint_customizer/default_token_2022.rs'], [('extension initialisation', P + 'mint_customizer/default_token_2022.rs')], h=CF[:1] + CF[2:3], th=CF[1:2] + CF[3:4], f=FC, b=CB)
prop('C12', 'Only an empty escrow that no longer fits its mint can be closed',
     'Closing succeeds exactly when the accounts are the canonical ones of Token-2022 mints and the escrow is initialised, unfrozen, empty, owned by the authority and carries a set of extensions other than the one its mint now requires. It closes that escrow only, to the given destination; a refused call has no effect.',
     ['inputs', 'histories'], 'every combination of required mint extensions (16) and of extensions carried by the escrow (512), every balance, state, owner and key',
     'The tests re-create a mint with one pair of extension sets; there are thousands of pairs, and the balance may be any number.',
     [PR], [('extension set comparison and close', PR + ' process_close_stuck_escrow')], h=ESQ, th=[h for h in ES if h not in ESQ],
     f=['processor::process_close_stuck_escrow', 'processor::process_instruction', 'lib address derivations'], b='the sets of required extensions are enumerated (quick 6, thorough all 16); everything else is full domain', x=['extl'])
prop('C13', 'Only the mint authority sets the canonical pointer, exactly as asked',
     'The canonical pointer of a mint is written only at its derived address, only in a transaction signed by the current mint authority of an initialised mint of a genuine token program, and then holds exactly the requested program. A refused call leaves it as it was.',
     ['inputs', 'histories'], 'every mint content and signer, new and existing pointers, every requested program, repeated updates',
     'Tests set it once or twice with honest mints; mints without authority, stale authorities or uninitialised mints with any bytes are not covered.',
     [PR, P + 'state.rs'], [('authority check and pointer write', PR + ' process_set_canonical_pointer')], h=PT, th=[], f=['processor::process_set_canonical_pointer', 'processor::process_instruction', 'lib address derivations'],
     b='none in keys, bytes, lamports and flags; the pointer holds 0 or 32 bytes')
prop('C18', 'Instruction data: exactly the documented bytes are accepted',
     'A byte string is accepted as an instruction exactly if it is the documented encoding of one, every instruction encodes to the documented bytes, and decoding gives the instruction back.',
     ['inputs'], 'every byte string of any length up to 10240, every instruction with every amount, flag and address',
     'The tests round-trip a few instructions and a few malformed strings; accepting one undocumented string is a matter of all inputs.',
     [INS], [('unpack and pack', INS)], h=['codec::unpack', 'codec::pack'], th=[], f=['instruction::TokenWrapInstruction::{unpack, pack}'], b='instruction data of at most 10240 bytes')
prop('C19', 'Addresses and instructions built by the library are the documented ones',
     'Every address the library derives is the documented function of its inputs, for this deployment and for any fork, and every instruction it builds names exactly the documented accounts in order, with exactly the documented privileges, and the documented data.',
     ['inputs', 'configurations'], 'every key, amount, flag, program id and number of multisig signers up to three',
     'The tests compare a builder with the handler on honest inputs; a wrong privilege or an account in the wrong place for another configuration (fork, multisig) is not seen.',
     [LIB, INS], [('derivations', LIB), ('instruction builders', INS)], h=['build::simple', 'build::sync', 'build::transfer', 'build::transfer_multisig', 'build::addresses', 'build::addresses2', 'build::escrow'], th=[],
     f=['instruction::{create_mint, wrap, unwrap, close_stuck_escrow, sync_metadata_to_token_2022, sync_metadata_to_spl_token, set_canonical_pointer}', 'lib: all get_*_address* functions'], b='0, 1 or 3 multisig signers')
prop('C20', 'Error codes are stable and name their error',
     'Every error of the program has the documented number, a number is turned back into exactly that error, and any other number is refused.',
     ['inputs'], 'every error and every 32-bit number', 'No test goes through all numbers; clients branch on these codes.',
     [P + 'error.rs'], [('error enum and conversions', P + 'error.rs')], h=['codec::errors'], th=[], f=['error::TokenWrapError conversions'], b='none')
prop('C22', 'An honest wrap or unwrap is never refused',
     'If the accounts are the canonical ones of existing mints with every required privilege, a wrap or unwrap of any positive amount is accepted: no check fails, the program does not abort, and the calls it makes name every account, privilege, decimals and fee the called programs demand. So tokens in escrow are never locked in.',
     ['inputs'], 'every positive amount, fee configuration, transfer hook, pair of token programs, single or multisig authority, every other content of the accounts',
     'Tests run a few honest transactions; a refusal that depends on an amount, a fee, a key order or an extension is not met by them.',
     [PR], [('checks and calls', PR + ' process_wrap, process_unwrap')],
     h=['wrap::honest', 'wrap::honest_extras', 'wrap::honest_multisig_three', 'unwrap::honest', 'unwrap::honest_extras', 'unwrap::honest_multisig_three'], th=['wrap::honest_multisig', 'wrap::honest_multisig_2022', 'unwrap::honest_multisig', 'unwrap::honest_multisig_2022'], f=FW + FU, b=XB, x=['xfer', 'hook'], no_panic=True)

NA = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA[id] = reason


exec(open(os.path.join(ROOT, 'table_meta.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for id in sorted(PROPS):
            p = PROPS[id]
            f.write(json.dumps({'id': id, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    rows = []
    for id in sorted(PROPS):
        p = PROPS[id]
        if id in NA:
            rows.append('| %s | %s | not applicable | %s |' % (id, p['title'], NA[id]))
        else:
            rows.append('| %s | %s | %s%s | %s |' % (id, p['title'], ' '.join(p['h']), ' (thorough: %s)' % ' '.join(p['th']) if p['th'] else '', p['b']))
    d = open(os.path.join(ROOT, 'DESIGN.md')).read()
    head, _, rest = d.partition('<!-- table -->\n')
    _, _, tail = rest.partition('<!-- /table -->\n')
    d = head + '<!-- table -->\n| id | property | harnesses (contracts) | bounds |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /table -->\n' + tail
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
    conf = {'trusted': TRUSTED, 'assumptions': ASSUME, 'properties': {}}
    checks = []
    for id in sorted(PROPS):
        if id in NA:
            continue
        p = PROPS[id]
        conf['properties'][id] = {'harnesses': p['h'], 'thorough': p['th'], 'level': 'proof', 'functions': p['f'], 'bounds': p['b'],
                                  'trusted': [ENVX[x] for x in p.get('x', [])], 'assumptions': p.get('a', []), 'no_panic': p.get('no_panic', False),
                                  'explanation': p.get('e', '')}
        checks.append({'property': id, 'quick_cmd': 'python3 run.py %s quick' % id, 'thorough_cmd': 'python3 run.py %s thorough' % id,
                       'technique': 'contract-based deductive verification: pre/postcondition harness contracts on the real entry points, discharged by Kani/CBMC with callee contracts',
                       'level': 'proof', 'level_note': ('Every obligation named %s is discharged by the verifier from the current source. Bounds: %s. Trusted: the contracts of the runtime, PDA derivation, TLV parsing and callee programs in env/ (DESIGN.md).' % (id, p['b']))})
    json.dump(conf, open(os.path.join(ROOT, 'checks.json'), 'w'), indent=1)
    json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup',
               'hooks': {'guard': 'cfg(kani)', 'enable': 'cargo kani sets cfg(kani)', 'source_commits': HOOKS}, 'checks': checks,
               'not_applicable': [{'property': i, 'reason': NA[i]} for i in sorted(NA)],
               'notes': 'Checks build /repo/program from its working tree with the dependencies of env/ patched in.'},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
