SY = [PR, ME, MX]
S22 = ['meta::sync22_' + x for x in 'e_n e_0 e_new e_old n n_ab n_abcd 0 0_ab a a_a a_a_len a_ba ab ab_a ab_ba ab_bc ab_ca abc abc_cab abc_bd tall_new tall_old'.split()]
S22T = ['meta::sync22_' + x for x in '0_len a_b ab_b ab_cd'.split()]
SSP = ['meta::syncspl_' + x for x in 'own_new own_old none_new none_old mpl_new mpl_old plain_new plain_old tall_new tall_old'.split()]
T22 = ['meta::to22_' + x for x in 'plain full creator empty uses five tall'.split()]
TMP = ['meta::tompl_' + x for x in 'none all creator empty uses three five tall'.split()]
EX = ['metadata.rs: extract_token_metadata, resolve_token_2022_source_metadata, extract_metaplex_metadata, cpi_token_metadata_emit']
prop('C14', 'Syncing to Token-2022 makes the metadata equal to the source',
     "After a successful sync the Token-2022 wrapped mint's metadata has the name, symbol, URI and additional fields of the unwrapped mint's metadata and no others, whatever it held before. The wrapped mint must be the canonical Token-2022 one and only its derived authority signs.",
     ['inputs', 'histories'], 'every previous and every source metadata, including removed, added and changed fields; every accounts list',
     'The tests sync a few metadata values; the difference of two arbitrary sets of fields is not sampled.', SY, [('process_sync_metadata_to_token_2022', PR)],
     h=['meta::bind22_0'] + S22, th=S22T + ['meta::bind22_2'], f=['processor::process_sync_metadata_to_token_2022', 'processor::update_fields_if_changed', 'processor::process_instruction', 'lib address derivations'] + EX,
     b='values: full domain (any content of every text, so any subset of them is equal or different). Shapes: 23 (thorough 27) of (fields of the wrapped mint, fields of the source) with at most four fields; texts of 0 to 6 bytes (empty, equal and different lengths) and texts longer than Metaplex allows (36, 14, 204 bytes; fields of 40). Any accounts whatever: for a wrapped mint without metadata (with metadata: the accounts of the documentation)', x=['meta', 'map'])
prop('C15', 'Syncing to classic makes the Metaplex metadata equal to the source',
     "A successful sync creates or updates the Metaplex metadata of the canonical classic wrapped mint, at its derived address, with the name, symbol, URI, seller fee, creators, collection and uses of the unwrapped mint's metadata. Only the derived authority signs, and it remains the update authority.",
     ['inputs', 'histories'], 'every source metadata and state of the metadata account; every accounts list',
     'The tests sync a few metadata values with honest accounts.', SY, [('process_sync_metadata_to_spl_token', PR)],
     h=SSP + ['meta::bindspl_0'], th=['meta::bindspl_2'], f=['processor::process_sync_metadata_to_spl_token', 'processor::process_instruction', 'lib address derivations', 'metaplex.rs: token_2022_metadata_to_metaplex, metaplex_to_token_2022_metadata'] + EX,
     b='values: full domain in texts, creators, collection and uses. Shapes: ten (source in the mint itself with all or no optional fields, or in Metaplex with all or none; new or existing account), texts of up to six bytes and of 36, 14, 204 bytes, two creators. Any accounts whatever: with a source without texts', x=['meta', 'map'])
prop('C16', 'Metadata is only read from the source the unwrapped mint designates',
     'The metadata copied is the one the unwrapped mint itself designates: its pointer target if it has a pointer, else its derived Metaplex account. An account that is not that source, or is not owned by the program that must own it, is never accepted, and data returned by another program is never accepted.',
     ['inputs'], 'every unwrapped mint, pointer, source account (key, owner, bytes), owner program and return data',
     'Tests try a handful of wrong sources; a spoofed source is one of all accounts.', [ME], [('resolve_token_2022_source_metadata, extract_token_metadata', ME)],
     h=['meta::read0', 'meta::read1', 'meta::read2'], th=[], f=EX,
     b='none in keys, owners, pointers, extensions present and return data; the metadata read are told apart by their update authority and carry no texts (texts are decided by C14 and C15); with 0, 1 and 2 further accounts, which is all there can be', x=['meta'])
prop('C17', 'Converting metadata between standards keeps it and forges no creator',
     'Metadata converted between Metaplex and Token-2022, in either direction, keeps its name, symbol, URI, seller fee, creators with their shares, collection and uses, and never carries a creator marked as verified: only a creator may verify itself.',
     ['inputs'], 'every metadata value', 'Tests convert a few values; every optional part has its own branch and the parts combine.', [MX], [('metaplex_to_token_2022_metadata, token_2022_metadata_to_metaplex', MX)],
     h=T22 + TMP, th=['meta::syncspl_own_new', 'meta::syncspl_own_old', 'meta::syncspl_mpl_new', 'meta::syncspl_mpl_old'], f=['metaplex.rs: token_2022_metadata_to_metaplex, metaplex_to_token_2022_metadata'],
     b='values: full domain in texts, creators, shares, collection and use counts; the seller fee is any value towards Metaplex, five chosen values towards Token-2022. Shapes: fifteen combinations of optional parts, with 0, 1, 2, 3 and 5 creators (Metaplex allows five), texts of up to six bytes and of 36, 14, 204 bytes', x=['meta'])
prop('C21', 'Every mint customisation states the space and rules it sets up',
     'For each provided way of customising wrapped mints, the space allocated is the one its extensions need, the extensions set up are exactly the documented ones with the documented authorities, and the freeze authority and decimals it returns are the documented ones for every unwrapped mint.',
     ['inputs', 'configurations'], 'every unwrapped mint, every wrapped mint address and every provided customisation',
     'Tests create mints with the default customisation only, from a few unwrapped mints; the other customisations are what forks deploy.', [P + 'mint_customizer/'], [('MintCustomizer implementations', P + 'mint_customizer/')],
     h=['custom::default', 'custom::no_extensions', 'custom::compliance', 'custom::rules'], th=[],
     f=['mint_customizer::{default_token_2022, no_extensions, compliance}: get_token_2022_mint_space, initialize_extensions, get_freeze_auth_and_decimals', 'ExtensionType::try_calculate_account_len (real dependency code)', 'PodElGamalPubkey::from_str (real dependency code)'],
     b='none', a=['custom: the all-zero key is no derived address (it is a point of the curve)'])
na('C23', 'The command-line client builds only transactions the user asked for',
   'Each command of the client sends exactly the documented instruction for the accounts the user named, deriving every other account as the library does, and refuses to guess when an account does not exist or belongs to the wrong program.',
   ['inputs', 'configurations'], 'every command line, configuration and chain state', 'Tests run each command once against a local validator.', ['clients/cli/src/'], [('commands', 'clients/cli/src/')],
   'The commands are asynchronous functions around an RPC client, file system and signers: no deductive verifier here accepts async Rust with those dependencies (Kani has no contract for tokio, solana-client or reqwest), and what remains without them is the library, decided under C19.')
na('C24', 'The JavaScript client builds the same instructions as the program library',
   'For all inputs the JavaScript client derives the same addresses and builds the same instructions as the program library.',
   ['inputs'], 'every input', 'Tests build a few.', ['clients/js/src/'], [('instruction builders', 'clients/js/src/')],
   'TypeScript: no deductive verifier for it is installed, and a translation to another language would be a model of it.')
