import __main__
prop = __main__.prop

INV = 'invoice/src/invoice.rs'
PARSE = 'invoice/src/parse.rs'

prop('J01', 'Network prefixes and network tables agree in both directions',
     'For every supported network, the text prefix written for it parses back to that same network, no two networks '
     'share a prefix, and wrapping data for a network yields data that reports that network, base layer and '
     'production flag and gives back the same payload.',
     ['inputs'], 'all networks, all payloads, any letter case of the prefix',
     'A test exercises the networks its author thought of; the tables are spread over eight functions and a wrong row '
     'still type-checks and only misroutes payments of that one network.',
     [INV, PARSE], [('network codec', 'FromStr/Display for ChainNet'), ('payload wrapper', 'XChainNet')],
     observe=['parsed network', 'layer1()', 'is_prod()'])
AMT = 'invoice/src/amount.rs'
MEM = 'src/persistence/memory.rs'
ASG = 'src/contract/assignments.rs'
DATA = 'invoice/src/data.rs'

prop('J02', 'Invoice beneficiaries survive the text and binary codecs unchanged',
     'A witness-output beneficiary encoded to its binary payload and decoded again gives the same closing method, '
     'address kind and address bytes; unknown closing methods and address kinds are rejected. A beneficiary printed '
     'with its network and parsed again gives the same network, the same kind (blinded seal or witness output) and '
     'the same payload.',
     ['inputs'], 'every address kind, address bytes, closing method, network and blinded seal',
     'Two inverse tables over byte codes; a swapped code or wrong slice only shows for one address type, and the '
     'repository tests a couple of fixed invoices.',
     [INV, PARSE], [('payload codec', 'Pay2Vout'), ('text codec', 'Beneficiary / XChainNet<Beneficiary>')],
     observe=['parsed beneficiary', 'parse errors'])

prop('J03', 'Transport endpoints survive the text codec unchanged',
     'Every transport endpoint with a host is printed with a scheme that identifies its kind and its use of TLS, and '
     'parsing that text yields the same kind, TLS flag and host. Text with an unknown scheme, no scheme separator or an '
     'empty host is rejected.',
     ['inputs'], 'all transport kinds, both TLS settings, all host strings',
     'The scheme tables are duplicated between the writer and the parser; losing the TLS flag or swapping kinds is '
     'invisible unless the exact pair is tested.',
     [PARSE], [('transport codec', 'FromStr/Display for RgbTransport')],
     observe=['parsed transport', 'parse errors'])

prop('J04', 'Invoice text carries every field of the invoice and parsing accepts only that',
     'The text of an invoice carries its contract or the omission mark, its interface or the omission mark, the '
     'requested state (only when there is one), the beneficiary, and every parameter: expiry, endpoints and all unknown '
     'parameters, percent-encoded. Parsing such text yields an invoice whose every field comes from its own part of the '
     'text, and every malformed, missing or surplus part is an error, never a silently dropped field.',
     ['inputs'], 'every combination of present and omitted fields and parameters, every input text',
     'There are 2^7 combinations of optional parts and unbounded parameter sets; the repository tests a handful of '
     'fixed texts.',
     [INV, PARSE, 'invoice/src/builder.rs'],
     [('invoice writer', 'Display for RgbInvoice'), ('invoice parser', 'FromStr for RgbInvoice'),
      ('requested state codec', 'InvoiceState')],
     observe=['invoice text', 'parsed invoice', 'InvoiceParseError'])

prop('J05', 'Amount arithmetic reports overflow and precision tables are powers of ten',
     'Checked addition and subtraction of amounts and fractions give no result and leave the value unchanged exactly '
     'when the machine operation overflows or underflows; saturating ones clamp, and sums saturate. The multiplier of '
     'each precision is ten to its number of decimals, and conversions to and from whole coins use that multiplier '
     'with checked or saturating multiplication and matching division.',
     ['inputs'], 'all 64-bit operands and all precisions',
     'Overflow happens only near 2^64 and each of the 19 precision rows needs its own test value.',
     [AMT], [('quantities', 'Amount, OwnedFraction'), ('precision', 'Precision')],
     observe=['returned amounts', 'value after *_assign'])

prop('J06', 'A decimal coin amount never carries a fraction as large as one coin',
     'Every decimal amount that can be constructed has a fraction smaller than ten to the power of its precision, its '
     'integer and fractional parts are quotient and remainder of the same value by the same power of ten, and '
     'converting back reports overflow instead of wrapping. The text of a token allocation contains fraction, "@" and '
     'token in that order and parses back to the same two numbers.',
     ['inputs'], 'all values, all precisions, all input texts',
     'The invariant is broken only by values with more fractional digits than the declared precision; tests use '
     'round amounts.',
     [AMT, DATA], [('decimal amount', 'CoinAmount'), ('allocation text', 'Allocation')],
     observe=['printed decimal amount', 'parsed allocation'])

prop('S01', 'Adding an operation records all its revealed state exactly as defined',
     'When a genesis, transition or extension is added to a contract state, every revealed owned-state item of every '
     'type is recorded under its own state kind with its operation id, type, position, state, seal and witness, and '
     'every global state item is recorded under its type with its position and origin. The witness of the operation is '
     'recorded with its status, and already recorded history is never removed or replaced.',
     ['inputs', 'histories'], 'all operations, all mixes of state kinds, revealed and concealed items, any order of additions',
     'Generic code over four state kinds and two seal kinds: a wrong index, collection or skipped list shows only for '
     'specific schemas; the repository has no test that builds contract state.',
     [MEM, ASG, 'src/persistence/state.rs'],
     [('history writer', 'MemContractState / MemContractWriter'), ('registration', 'MemState')],
     state=['in-memory contract state'], observe=['rights/fungible/data/attach readers', 'global state', 'witness status'])

prop('S02', 'Owned state is visible exactly when its witness is known and not archived',
     'Reading owned state of a contract yields an item if and only if it is of the requested kind (and, where asked, '
     'type and output) and was either defined without a witness or has a witness which is known and not archived. '
     'The contract view used for reading knows every witness mentioned by the global or owned state of the contract, '
     'with its current status.',
     ['inputs', 'histories'], 'all contract histories, all witness status assignments, all queried outputs and types',
     'Archived witnesses only appear after chain reorganisations or replaced transactions; no test produces them.',
     [MEM, ASG], [('state readers', 'MemContract'), ('witness check', 'OutputAssignment::check_witness'),
                  ('contract view', 'MemState::contract_state')],
     state=['in-memory contract state', 'witness status table'], observe=['state readers'])
prop('S04', 'Global state is read completely, limited and without archived items',
     'Reading global state of a type gives the stored items of exactly this type, each with its own value and position: '
     'those of genesis always, those of transitions and extensions exactly if their witness is known and not archived, in '
     'order of position and up to the limit set by the schema. Counting the items or looking at the current one does not '
     'move the reading position, and starting again gives the same items. A type the contract does not have is an error, '
     'and reading by an interface name uses the type bound to this name.',
     ['inputs', 'histories'], 'all contract histories, witness statuses, global types and limits',
     'Needs contracts which extend global state in transitions with archived or unknown witnesses; tests only have genesis '
     'state with a single item.',
     [MEM, 'src/interface/contract.rs'], [('global state reader', 'MemContract::global'), ('starting state', 'MemContractState::new'),
                                          ('reading by name', 'ContractIface::global')],
     state=['in-memory contract state', 'witness status table'], observe=['global state readers'])
IDX = 'src/persistence/index.rs'
STASH = 'src/persistence/stash.rs'
MERGE = 'src/contract/merge_reveal.rs'
ANCH = 'src/containers/anchors.rs'

prop('X01', 'Every operation, bundle and revealed seal of accepted data is indexed',
     'Indexing a consignment or a witness bundle registers its contract, maps each bundle to its contract and witness, '
     'each known transition to its bundle, and every revealed seal of every owned-state list of genesis, extensions and '
     'transitions to the exact operation output defined there; terminals are mapped by their seals. Existing entries are '
     'kept, conflicting ones are reported as errors, and an error stops the indexing.',
     ['inputs', 'histories'], 'all consignments and bundles, any mix of state kinds, seal kinds and witness presence',
     'A list kind, a bundle of the second closing method or an extension that is left out of the index makes state '
     'silently unspendable; only contracts using exactly that combination show it and no repository test does.',
     [IDX, MEM], [('indexer', 'Index'), ('in-memory index', 'MemIndex')],
     state=['operation, bundle, outpoint and terminal indexes'], observe=['index lookups', 'IndexWriteError'])

prop('X02', 'Index lookups return everything stored for the query and nothing else',
     'Asking for the contracts assigning outputs, or for the state assigned to outputs or terminals, returns exactly the '
     'entries stored for the queried contract and outputs over all seals with that output; looking up the bundle of an '
     'operation or the contract and witness of a bundle returns the stored pair. An unknown contract, output, operation '
     'or bundle gives its own error instead of an empty answer.',
     ['inputs', 'histories'], 'all index contents, all queried outputs, terminals, operations and bundles',
     'Lookups differ from the obvious ones only when several seals share an output or when one of several queried '
     'outputs is unknown.',
     [MEM, IDX], [('index readers', 'MemIndex'), ('index facade', 'Index')],
     state=['operation, bundle, outpoint and terminal indexes'], observe=['returned sets', 'IndexInconsistency'])

prop('K01', 'The stash keeps every object under its own identifier',
     'Storing a schema, interface, implementation, genesis, extension, bundle, witness, attachment, library, supplement, '
     'seal or identity changes only the record kept under the identifier of that very object; a known schema or '
     'interface is never replaced. Reading returns exactly the record stored under the queried identifier, listings '
     'contain all records, and a missing record gives its own error.',
     ['inputs', 'histories'], 'all objects, any order of writes and reads',
     'A record kept under the wrong key or in the wrong collection shows only when a second object is present; '
     'repository tests never fill the stash.',
     [MEM], [('stash storage', 'MemStash'), ('implementations of a schema', 'SchemaIfaces')],
     state=['in-memory stash'], observe=['stash readers and listings', 'StashInconsistency'])

prop('K02', 'Only signatures of acceptable identities are stored and trust is never changed',
     'Importing signatures stores exactly those whose identity has an acceptable trust level, with every other '
     'signature of the content kept. An unknown identity gets the default level, a recorded level is never changed by '
     'an import, and the levels are ordered so that malicious identities are never accepted and only trusted ones are '
     'used.',
     ['inputs', 'histories'], 'all signature sets, all recorded trust levels',
     'Needs an identity marked malicious before the import; no test records trust levels.',
     [MEM, 'src/containers/util.rs'], [('signature import', 'MemStash'), ('trust levels', 'TrustLevel')],
     state=['identities and signatures of the stash'], observe=['sigs_for', 'get_trust'])

prop('K03', 'Importing a kit or consignment stores all of its parts',
     'When a kit, consignment or witness bundle is accepted, every type, library, interface, schema, implementation, '
     'supplement, signature, genesis, extension, bundle, witness and attachment it carries ends up in the stash; an '
     'object already known is merged with the stored one and the result stored, and implementations are stored after the '
     'schemata and interfaces they refer to. Each witness is stored with the anchor built from its own proofs, and any '
     'error aborts the import.',
     ['inputs', 'histories'], 'all kits and consignments, any previously stored content',
     'Fourteen kinds of parts, each missing only in data which carries it and only on the second import for the merged '
     'ones.',
     [STASH, MERGE], [('kit and consignment import', 'Stash'), ('witness import', 'Stash')],
     state=['stash contents'], observe=['stash readers', 'StashError'])

prop('M01', 'Merging two views of the same data never hides anything known to either',
     'Merging two copies of an operation, bundle, witness or anchor yields one which reveals every seal, state, '
     'transition, transaction and proof that at least one of them reveals, in the same order. Copies with different '
     'identifiers, witnesses of different transactions and data of different chains are never merged.',
     ['inputs'], 'all pairs of partially revealed copies, every combination of concealment of seals and states',
     'There are sixteen combinations per assignment in four generic state kinds, four witness and nine anchor '
     'combinations; the repository has no test of merging.',
     [MERGE, ANCH], [('merge of operations and assignments', 'MergeReveal'), ('merge of witnesses and anchors', 'PubWitness, AnchorSet')],
     observe=['merged value', 'MergeRevealError'])

prop('A01', 'Witness bundles keep each proof with its own bundle and closing method',
     'A client bundle can only be built of a proof and a bundle with the same closing method, a witness gets a second '
     'bundle only for the other method, and all listings give every bundle exactly once with its own proof. Revealing a '
     'seal opens every assignment concealing exactly that seal in the bundle with the given id and nothing else, and a '
     'transition is added only to a bundle which commits to it.',
     ['inputs'], 'all witness bundles of one or both closing methods, all seals and transitions',
     'Witnesses with both closing methods are rare and are not built by any test; a swapped proof is only detected by '
     'the receiver.',
     [ANCH, ASG], [('anchored bundles', 'AnchoredBundles, ClientBundle, WitnessBundle'), ('seal revealing', 'TypedAssignsExt')],
     observe=['witness bundle contents', 'returned flags and errors'])
STATE = 'src/persistence/state.rs'
STOCK = 'src/persistence/stock.rs'

prop('W01', 'Updating witnesses records each resolved status and reports each failure',
     'An update asks the resolver about every known witness except those mined below the given height, and records for '
     'each of them exactly the status resolved for it. Witnesses which fail to resolve keep their status and are '
     'reported with their error, the number of updated witnesses counts only resolved ones, and no witness is ever '
     'forgotten.',
     ['histories', 'fault_sequences', 'inputs'], 'all sets of known witnesses, all resolver answers and failures, all heights',
     'Needs a resolver which fails for some witnesses and a mixture of mined and unmined ones; no test has a resolver.',
     [MEM, STATE], [('witness update', 'MemState, State'), ('update report', 'UpdateRes')],
     state=['witness statuses'], observe=['UpdateRes', 'visibility of owned state'])

prop('P01', 'Success of a change means all stores were changed and saved together',
     'Every operation changing the stock changes a store only while the transaction of that store is open, and reports '
     'success only if every store it opened was committed after the change. An error of opening, changing or saving any '
     'of the three stores is returned, and saving, loading and making a stock persistent cover all three.',
     ['fault_sequences', 'programs'], 'all public mutating operations, a failure at every step',
     'Requires injecting a storage failure at each of nine steps of each operation.',
     [STOCK, STATE, STASH, IDX, MEM], [('transactions', 'StoreTransaction'), ('stock operations', 'Stock'), ('persistence', 'Persisting')],
     state=['stash, state and index stores'], observe=['returned results', 'stored data'])

prop('P02', 'A failed change leaves no store with an open or half-made change',
     'When an operation changing the stock fails, each store whose transaction it had opened has been rolled back before '
     'the error is returned, whichever step failed. Rolling back never crashes.',
     ['fault_sequences'], 'a failure at every step of every operation which runs a transaction',
     'Requires injecting a failure into each step, including the commits of the second and third store.',
     [STOCK, STATE, STASH, MEM], [('transactions', 'StoreTransaction')],
     state=['stash, state and index stores'], observe=['stores after an error'],
     note='the failures which the code does not undo today are listed as known findings, each by its own failing step')

prop('S03', 'Accepted history enters the contract state with the status of its own witness',
     'Every revealed transition of an accepted bundle or consignment is added to the state of its contract, together '
     'with the witness anchoring it and the status resolved for that very witness; an extension is added exactly when a '
     'transition spends it. An unknown contract and a failure to resolve or to write are returned as errors, and a '
     'witness is offered for a bundle only if its status is valid.',
     ['inputs', 'histories', 'fault_sequences'], 'all consignments and bundles, all resolver answers and failures',
     'Needs consignments with several witnesses of different statuses, extensions and failing resolvers; the repository '
     'builds none.',
     [STATE, STOCK], [('state updates', 'State'), ('witness selection', 'State')],
     state=['contract state'], observe=['contract state readers', 'StateError'])

prop('T01', 'An accepted consignment or fascia reaches stash, state and index alike',
     'A successfully imported contract, accepted transfer or consumed fascia is recorded by all three stores with the '
     'same content: all bundles, each under its own contract and witness, with every known blinded seal revealed in the '
     'bundle it was used in. The status returned is that of the validation of that consignment; bundles with '
     'transitions they do not commit to are refused.',
     ['inputs', 'fault_sequences'], 'all valid consignments and fascia, any set of known secret seals',
     'A store left out is only noticed by a later read of exactly that store, and secret seals only by the next '
     'transfer.',
     [STOCK, STASH, 'src/containers/consignment.rs', 'src/containers/partials.rs'],
     [('import and acceptance', 'Stock'), ('seal resolution', 'Stash, Consignment'), ('fascia', 'Fascia, Dichotomy')],
     state=['stash, state and index'], observe=['store readers', 'validation status'])
CONS = 'src/containers/consignment.rs'

prop('V01', 'Only consignments which pass full validation can be imported',
     'Validation judges the very consignment, schema, contract and network it is called with and succeeds only if no '
     'failure and no unresolved witness was found, including failures found after the consensus checks: a bundle '
     'repeated under several witnesses, a transition under a foreign id and a transition not committed to by its bundle. '
     'A mark contradicting the kind of the consignment, an interface which does not fit its implementation and a terminal without '
     'a bundle are reported as warnings. A validated container cannot be built, altered or imported in any other way.',
     ['inputs', 'programs'], 'all consignments and kits, all programs using the public interface',
     'The forged consignments have to be constructed one by one, and no test can show that no other way in exists.',
     [CONS, 'src/containers/kit.rs', STOCK], [('validation gate', 'Consignment, ValidConsignment, ValidKit'), ('imports', 'Stock')],
     observe=['validation result and status', 'public constructors'])

prop('V02', 'The validator is shown every part of the consignment under its own id',
     'The view of a consignment handed to validation finds every bundle, anchor, witness, transition, extension and '
     'script of that consignment under its own id, tells each operation the witness and bundle it really is in, and '
     'finds nothing for other ids. Genesis is found for its own id only.',
     ['inputs'], 'all consignments, all identifiers',
     'A consignment with a part which is not indexed is validated without that part; tests hold no consignments.',
     ['src/containers/indexed.rs'], [('consignment view', 'IndexedConsignment')],
     observe=['results of the lookups used by validation'])

prop('C01', 'A consignment carries the whole history of the state it transfers',
     'A consignment made for outputs and secret seals contains every transition of the contract which assigned state '
     'to them and, transitively, every transition whose state these spent, back to genesis, each revealed in the bundle '
     'anchored by its own witness and none twice or lost when both commitment methods share a witness. A missing '
     'operation, bundle or witness is an error, never a shorter history.',
     ['inputs', 'histories', 'fault_sequences'], 'all contract histories, any outputs and secret seals, incomplete stores',
     'Needs branching histories with merges, double anchors and holes in the stash; the repository builds no history at '
     'all.',
     [STOCK, CONS], [('consignment composition', 'Stock'), ('bundle lookup', 'Stock'), ('exports', 'Stock')],
     state=['stash, state and index'], observe=['bundles of the consignment', 'ConsignError, StockError'])

prop('C04', 'A consignment carries its terminals, definitions, signatures and supplements',
     'A consignment marks as terminal exactly the asked secret seal, under each bundle which assigned state to it, and '
     'contains the genesis, schema, types and scripts of the contract and all implementations known '
     'for the schema with their interfaces. Signatures and supplements known for any of them are included under the id of '
     'that very item.',
     ['inputs', 'histories'], 'all contracts, any outputs and secret seals, any set of signatures and supplements',
     'A receiver missing one of these parts fails much later and in another wallet; tests never look into a '
     'consignment.',
     [STOCK, CONS], [('consignment composition', 'Stock')],
     state=['stash'], observe=['terminals, interfaces, signatures, supplements, types and scripts of the consignment'])

prop('C02', 'Paying an invoice pays exactly what was asked and returns the rest to the owner',
     'Composing a payment spends all state of the invoiced contract held by the given outputs, each output in a '
     'transition of the closing method of its own seal; the transitions together assign exactly the invoiced amount, or '
     'the invoiced token, to the invoiced beneficiary and everything else that was spent to seals of the payer. '
     'An invoice without contract or interface, expired, with a beneficiary output not provided, asking for more than the '
     'outputs hold, or for state the interface cannot transfer is refused.',
     ['inputs', 'histories'], 'all invoices, any set of outputs, any mix of closing methods and state types',
     'The amounts are split over two transitions depending on which closing methods the coins use; a wrong branch loses '
     'or duplicates assets only for one mix, and the repository composes no payment at all.',
     [STOCK], [('payment composition', 'Stock')],
     state=['spent outputs'], observe=['transitions of the batch', 'ComposeError'])

prop('C03', 'Paying one contract moves all other contracts on the same outputs to the owner',
     'Every other contract with state on the spent outputs gets exactly one extra transition per closing method of these '
     'seals, which spends all of that state and assigns each piece unchanged, under its own type, to a seal of the payer '
     'with that method. Nothing of another contract is left behind, paid to the beneficiary or put into an empty '
     'transition, and a state for which the payer offers no output is an error.',
     ['inputs', 'histories'], 'any set of contracts sharing the spent outputs, any state types and closing methods',
     'A forgotten piece of a foreign contract is lost forever once the output is spent and is only noticed with several '
     'contracts on one output; the repository has no such scenario.',
     [STOCK], [('blank transitions', 'Stock')],
     state=['spent outputs'], observe=['blank transitions of the batch', 'ComposeError'])

PARTS = 'src/containers/partials.rs'
BLD = 'src/interface/builder.rs'

prop('B01', 'A batch records its transitions with their true ids, inputs and closing methods',
     'Each transition of a payment batch is recorded with its id, the outpoints of all seals it spends and their common '
     'closing method; a transition spending seals of different methods is refused. Changing the priority of a batch '
     'changes it in every transition and every recorded id with it; listing a batch or asking for its closing methods takes '
     'all of its transitions into account.',
     ['inputs'], 'all batches, any mix of closing methods, any priority',
     'Stale ids and forgotten second or blank transitions only show up in batches using both closing methods, which no test '
     'builds.',
     [PARTS], [('transition record', 'TransitionInfo'), ('batch', 'Batch, Dichotomy'), ('sets of methods', 'CloseMethodSet')],
     observe=['ids, inputs and methods in a batch', 'iteration over a batch', 'union of method sets'])

prop('B02', 'An operation builder keeps exactly what it was given',
     'Adding a seal with state, a global or metadata value, an input or an asset tag to a builder adds that item under the '
     'schema type of the given name and of the matching kind and changes nothing else: nothing added before is lost or overwritten. '
     'Names unknown to the interface, values not matching their type, state under a foreign asset tag and seals of '
     'another chain are refused.',
     ['inputs', 'histories'], 'all interfaces and schemata, any sequence of builder calls',
     'A builder which silently replaces an earlier item burns assets, but only for a repeated type, name or seal; the '
     'repository never builds a transition in its tests.',
     [BLD], [('builders', 'ContractBuilder, TransitionBuilder, OperationBuilder')],
     state=['builder'], observe=['the completed operation', 'BuilderError'])

prop('B03', 'A completed operation contains all that was put into its builder, balanced',
     'The genesis or transition made by a builder has every given seal with its own state under its own type, and the metadata, '
     'global state, inputs, type, nonce, issuer, network and tags of the builder. Of each fungible type exactly the last '
     'assignment gets a new blinding factor, the one balancing all inputs of this type against all its other outputs. '
     'An issued contract is returned only if it passed validation.',
     ['inputs', 'histories'], 'all builder contents: any number of types, seals and kinds of state',
     'One forgotten assignment or blinding factor makes an operation invalid or loses assets only with a particular number of '
     'inputs and outputs per type.',
     [BLD], [('completion', 'OperationBuilder, TransitionBuilder'), ('issuing', 'ContractBuilder')],
     state=['builder'], observe=['assignments, globals, inputs and metadata of the operation'])

prop('K04', 'A failed step of a store operation is reported to the caller',
     'No operation of the stock, the stash, the state, the index or of their file and memory stores returns success after one of its steps '
     'failed: a missing record, a read or write error and a collection which is full are all passed on. Excepted are '
     'questions whether something is present and signatures, which a store may drop when it has no room.',
     ['fault_sequences', 'inputs'], 'any failing step in any operation of the stores',
     'Each of several hundred steps has to fail in turn, which takes full collections and broken storage providers.',
     [MEM, STOCK, STASH, STATE, IDX], [('stores', 'Stock, Stash, State, Index, MemStash, MemState, MemIndex')],
     state=['stores'], observe=['results of the store operations'])

prop('D01', 'The state of a contract on given outputs is reported whole and unmixed',
     'Asked for the state of a contract on a set of outputs, the stock reports every right, amount, data and attachment whose '
     'seal is on one of these outputs, under its own seal, its own operation output and with its own value, and nothing '
     'else. Asked which contracts or which operation outputs are on given outputs, it answers for exactly these outputs.',
     ['inputs', 'histories'], 'all contract states, any set of outputs, any number of items per seal',
     'A dropped or mixed up item makes a payment spend too little or too much; it takes several kinds of state on the same '
     'output, which no test has.',
     [STOCK], [('state on outputs', 'Stock')],
     state=['contract state'], observe=['persisted state per seal and output'])

prop('D02', 'Builders, views and kits use the definitions of their own contract',
     'A builder for a contract is given the schema of that contract, the interface asked for, the implementation of that '
     'interface by that schema, exactly their types and scripts and all asset tags of the contract; a view of a contract and an exported '
     'kit likewise. A contract, schema or interface which is unknown, or not implemented, is an error and never answered with '
     'another one or with a crash.',
     ['inputs', 'configurations'], 'all sets of schemata, interfaces and implementations in a stash',
     'With one schema and one interface in the store every mix-up is invisible; the repository tests have none at all.',
     [STASH, STOCK], [('builders', 'Stash, Stock'), ('lookups', 'MemStash'), ('kits', 'Stash')],
     state=['stash'], observe=['what a builder accepts', 'contract view', 'exported kit', 'StashDataError'])

FILE = 'src/containers/file.rs'
KIT = 'src/containers/kit.rs'

prop('E01', 'The id of a container or definition changes with any of its parts',
     'The identifiers of consignments, kits, witness bundles, interfaces, interface implementations, supplements and signatures commit '
     'to every part, with all members of every list, so that two containers with the same id have the same content. The textual '
     'id has the prefix of its kind and all of its bytes, and is read back only as an id of the same kind.',
     ['inputs'], 'all containers: any number of bundles, extensions, attachments, supplements and signatures',
     'A part left out of the commitment changes no id in any test, since no test compares the ids of containers differing in one part.',
     [CONS, KIT, 'src/interface/iface.rs', 'src/interface/iimpl.rs', 'src/containers/suppl.rs'],
     [('commitments', 'Consignment, Kit, WitnessBundle, Iface, IfaceImpl, Supplement'), ('textual ids', 'ConsignmentId, KitId, IfaceId, ImplId, SupplId')],
     observe=['consignment_id', 'kit_id', 'armored id', 'text of an id'])

prop('E02', 'Container files are read only as the kind of container they were written as',
     'A saved file has the common prefix, the mark of its own kind and then the whole container, and any failure to write is '
     'reported. A file is loaded only if prefix and mark are those of the kind returned, and an armored text is accepted as a transfer '
     'or contract only if its own mark says so. The headers of an armored container describe its own parts.',
     ['inputs', 'fault_sequences'], 'all containers, all files and texts, any failing write',
     'Needs files with foreign or damaged marks and writers which fail or write only partially; the repository tests neither.',
     [FILE, CONS, KIT], [('files', 'FileContent, UniversalFile'), ('texts', 'Consignment, Kit')],
     observe=['bytes of the file', 'LoadError', 'armor headers', 'parse result'])

prop('D03', 'Listings of contracts and definitions are complete and true',
     'The listings of contracts, schemata, interfaces, supplements and tapret commitments have an entry for every stored object, made of '
     'the data of this very object. Contracts and schemata listed for an interface class are exactly those for which the '
     'schema implements an interface of the class, directly or through an inheriting one.',
     ['inputs', 'configurations'], 'all stashes with any number of schemata, interfaces and contracts; all interface classes',
     'Wrong or missing entries need several contracts, schemata and interface versions in one stash; the tests have none.',
     [MEM, STASH, STOCK, 'src/info.rs'], [('listings', 'MemStash, Stash, Stock'), ('descriptions', 'ContractInfo, SchemaInfo, ImplInfo, IfaceInfo')],
     state=['stash'], observe=['entries of the listings'])

CIF = 'src/interface/contract.rs'

prop('Q01', 'Reading owned state by name and filter returns exactly the matching items',
     'A reader of rights, amounts, data or attachments by name returns every item of its kind which has the type the interface '
     'implementation binds to this name and which the filter accepts, each with its own output, origin, witness and value, '
     'and nothing else; only unknown names are refused. A filter made of outputs accepts exactly these outputs, an exclusion exactly the '
     'others, and no filter accepts everything.',
     ['inputs', 'configurations'], 'all contract states, interface implementations, names and filters',
     'A wrong type or a dropped item shows only with several types of the same kind, several outputs and several kinds of filters; there '
     'are no tests of it.',
     [CIF, 'src/interface/filter.rs', ASG], [('readers', 'ContractIface'), ('filters', 'AssignmentsFilter'), ('conversions', 'AllocatedState')],
     state=['contract state'], observe=['lists of allocations', 'ContractError'])

prop('H01', 'The history of a contract lists what was issued, received and sent',
     'The history lists as issued the allocations on own outputs without a witness, as received those on own outputs whose witness is '
     'not an own one, and as sent those with an own witness which are not on own outputs: each exactly once, or '
     'for fungible state summed up per witness and type of state. Every entry has the type, operations, seals, state and witness '
     'of exactly its allocations, and the whole history consists of those of all four kinds of state.',
     ['histories', 'inputs'], 'all contract states and filters; any number of witnesses, types and allocations',
     'Needs contracts with several types of state and transfers with own, foreign and mixed outputs; the repository has no history test.',
     [CIF], [('history', 'ContractIface'), ('entries', 'ContractOp')],
     state=['contract state'], observe=['entries of the history'])

prop('I01', 'Interface implementations resolve names exactly and are checked completely',
     'Every lookup in an interface implementation finds the entry of the asked kind with exactly the name or type given, and nothing '
     'if there is none. Its check reports exactly the names of the interface it does not resolve, the entries whose type the schema '
     'does not define, names used more than once, errors the interface does not know and time stamps invalid or in the '
     'future; it succeeds only without any report and otherwise returns all of them.',
     ['inputs'], 'all interface implementations, interfaces and schemata, with any number of entries of each kind',
     'Each of about twenty reports depends on its own list and definition; the repository has no test of the check.',
     ['src/interface/iimpl.rs'], [('lookups', 'IfaceImpl'), ('check', 'IfaceImpl::check')],
     observe=['result of the lookups', 'returned inconsistencies'])

prop('I02', 'The check of an interface reports all and only its inconsistencies',
     'Checking an interface reports exactly: what its operations use and it does not define, single state an operation needs several of, '
     'default assignments and a default operation which do not exist, operation names used twice, required state missing in genesis, and time '
     'stamps invalid or in the future. It succeeds only without any report and otherwise returns all of them. The types listed for an '
     'interface are those of all its metadata, global state and structured data.',
     ['inputs'], 'all interfaces, with any number of operations and definitions',
     'About thirty combinations of operation and definition, each with its own report; the repository only checks that its own interfaces pass.',
     ['src/interface/iface.rs'], [('check', 'Iface::check'), ('types', 'Iface::types')],
     observe=['returned inconsistencies', 'listed types'])

prop('I03', 'Inheritance of schemata is checked completely; parents get the right entries',
     'Checking that a schema inherits from another reports exactly the state types, valencies and operations the root lacks or defines '
     'differently, and for genesis and every common operation the globals, inputs, assignments, redeemed and defined valencies the root '
     'lacks or counts differently; it succeeds only without any report and otherwise returns all of them. An implementation is turned into one for a parent '
     'interface exactly if its interface inherits from it, keeping exactly the entries the parent defines.',
     ['inputs'], 'all pairs of schemata; all interface implementations with base and parent interface',
     'Twenty reports over nested collections; the repository has no test of either function.',
     ['src/interface/inheritance.rs'], [('schema inheritance', 'CheckInheritance for Schema'), ('abstraction', 'IfaceImpl::abstracted')],
     observe=['returned failures', 'entries of the resulting implementation'])
prop('I04', 'Extending an interface reports every conflict and otherwise contains both',
     'Extending an interface with another reports exactly every conflict: a state type which differs or is no special case, an entry no longer required '
     'or public, a final or not overriding operation, a lowered minimum number of an operation argument, a replaced default, a collection '
     'which became too large. Without conflicts the result has all entries of both (those of the extension for common names), the name given, and '
     'the original, the extension and what the extension inherits as ancestors; with conflicts all of them are returned.',
     ['inputs'], 'all pairs of interfaces',
     'Some twenty-five conflicts over nested collections, each needing an interface which has it and nothing else; the repository has no test of them.',
     ['src/interface/inheritance.rs'], [('interface extension', 'Iface::extended'), ('operation extension', 'GenesisIface/TransitionIface/ExtensionIface::extended'),
      ('state inclusion', 'OwnedIface::is_superset'), ('override rules', 'Modifier::can_be_overridden_by')],
     observe=['returned errors', 'fields of the resulting interface'])

prop('J07', 'The invoice builder sets exactly the part asked for and refuses bad amounts',
     'Each step of the invoice builder changes exactly the part of the invoice it is named for, to the value given, and the '
     'finished invoice is the one built. A decimal amount is refused, with the builder returned unchanged and without a panic, exactly if its fraction '
     'is one coin or more or its value overflows; otherwise it is the integer part times the multiplier plus the fraction. Endpoints are added after those '
     'present, where only a lone unspecified endpoint is dropped, and text which is no endpoint is refused with the builder unchanged.',
     ['inputs', 'histories'], 'all sequences of builder calls with all arguments',
     'The amounts lost or panicking are at the ends of the range of some precisions; a step which touches another part shows only in particular sequences of calls.',
     ['invoice/src/builder.rs'], [('amounts', 'RgbInvoiceBuilder::set_amount, set_amount_approx'), ('endpoints', 'RgbInvoiceBuilder::add_transport, add_transports, add_transport_raw, add_transports_raw'),
      ('other parts', 'RgbInvoiceBuilder::new, with, set_*, finish')],
     observe=['finished invoice', 'returned refusal'])

prop('J08', 'Amounts written as text parse back to the same amount and round as named',
     'The text of a plain amount encodes the bytes of its value, lowest first, up to the last nonzero one; parsing completes them with zero bytes and refuses '
     'more than eight. The text of a decimal amount has its integer part, its fraction (if any) padded to the precision without trailing zeros, and its precision; '
     'parsing uses the precision given, or else the number of digits, scales the fraction to it and refuses one with more digits. Rounding to whole coins gives the quotient by the multiplier, '
     'plus one exactly if there is any remainder (rounding up) or one of half a coin or more (to nearest).',
     ['inputs'], 'all amounts, all precisions, all input texts',
     'Losses show only for values using all eight bytes, for fractions with leading or trailing zeros, or for remainders of exactly one half.',
     [AMT], [('plain text', 'Display and FromStr of Amount'), ('decimal text', 'Display and FromStr of CoinAmount'), ('rounding', 'Amount::floor, Amount::rem, Amount::ceil, Amount::round')],
     observe=['printed text', 'parsed amount', 'rounded amount'])

prop('N01', 'Annotations of a supplement keep their place and refused ones change nothing',
     'An annotation put into a supplement is read back under exactly the subject, item and name it was put under, and replaces at most the annotation '
     'of that same place. An annotation which cannot be stored is refused and leaves the supplement as it was. '
     'A velocity byte is read as the lowest named level which is not below it.',
     ['inputs', 'fault_sequences'], 'all supplements, places, names and data, also data or numbers of annotations which do not fit; all velocity bytes',
     'Losses show only when an annotation is refused for its size or number while others are present, or for bytes at the border of two levels.',
     ['src/containers/suppl.rs'], [('reading', 'Supplement::get, get_default, get_default_opt'), ('writing', 'Supplement::annotate, annotate_default, annotate_itself'),
                                   ('velocity', 'VelocityHint::with_value')],
     observe=['annotations of the supplement after each call', 'result of each read'])

prop('P03', 'Saved stores and containers are read back whole, each store from its own file',
     'The binary form of a store, container, definition or part of these contains every field and alternative of the object exactly once, and reading it '
     'gives each of them the value written for it. Stash, state and index use three different files, each is loaded from where it was saved, and saving succeeds '
     'only if the file was written. A copy of a store has all its entries and never writes to the files of the original.',
     ['inputs', 'histories'], 'all values of all types with a binary form; all contents of the stores',
     'A lost field or swapped file shows only after a restart, and only if the lost part was not empty.',
     ['src/persistence/fs.rs', 'src/persistence/memory.rs', 'src/persistence/stock.rs'],
     [('files', 'FsBinStore: new, load and store for each store'), ('copies', 'clone_no_persistence of stores and of the stock'), ('binary form', 'strict encoding and decoding of all types')],
     observe=['files written', 'objects read back', 'copies of stores'])

prop('Q02', 'Equality, order and hash of every object agree and follow its identity',
     'Two objects of the library are equal exactly if the order calls them equal, equal objects have equal hashes, equality is transitive and the partial '
     'order is the total one. Interfaces and transitions are told apart by their ids, witnesses and witness bundles by the transaction id, '
     'assignments by operation output and seal, and tickers by their letters regardless of case.',
     ['inputs'], 'all pairs and triples of objects of every type which can be compared or hashed',
     'A disagreement loses or repeats items of a set or map only for objects which differ in one component and share the others.',
     ['src/containers/anchors.rs', 'src/containers/partials.rs', 'src/interface/iface.rs', 'src/interface/iimpl.rs', 'src/contract/assignments.rs', 'src/stl/specs.rs'],
     [('comparisons', 'PartialEq, Ord, PartialOrd and Hash of PubWitness, WitnessBundle, TransitionInfo, Iface, OutputAssignment, Ticker')],
     observe=['result of comparing two objects', 'hash of an object', 'contents of sets and maps of objects'])
