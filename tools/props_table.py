# executed by props.py
prop("C01", "light", "Clock arithmetic is exact",
  "For every genesis time, slot length, slots-per-epoch and instant from genesis on, the clock's slot, epoch, slot-start timestamps, durations to the next slot and epoch boundary tests are the exact integer results, and before genesis no slot is reported. The clocks provided for the public networks carry those networks' genesis times, slot lengths and epoch lengths.",
  "every clock parameterisation, instant and slot number whose exact result fits the number type", ["inputs", "configurations"],
  "The unit tests evaluate one clock at a handful of instants; rounding and boundary errors appear only at particular instants and parameters.",
  [E+"clock.rs"], [("clock arithmetic", E+"clock.rs")],
  "runtime monitor: exact-arithmetic oracle on clock calls, boundary-biased and random",
  "Every public clock query is called on random and boundary-biased (exact slot edges, ±1 ns, genesis ±1) parameters and compared with 128-bit exact arithmetic; the shipped network clocks are compared with independently recorded genesis facts. Domain: results that fit the type (a slot number whose timestamp overflows is outside the claim).",
  "Sampled parameters and instants, dense around boundaries.")
prop("C02", "light", "The slot stream yields every slot once, in order, on time",
  "A consumer of the slot stream sees strictly increasing slots with none skipped while it keeps up, never receives a slot before its start time, and receives it promptly after. This holds under any passage of time between the stream's own clock readings, before genesis, and after consumer stalls.",
  "every start instant, consumer delay pattern and timing of the clock readings", ["schedules", "inputs"],
  "No test drives the stream across more than a couple of boundaries, and the failure needs a slot boundary to pass between two clock readings.",
  [E+"clock.rs"], [("slot stream", E+"clock.rs")],
  "runtime monitor: online ordering checker under virtual time with injected clock drift",
  "The stream runs on paused tokio time with an injected time source that advances a little on every reading and with consumer stalls; an online checker tests strict order, no skip while keeping up, not-before-start and promptness.",
  "Virtual time; wall-clock jitter of a real runtime is not measured.")
prop("C03", "light", "Text codecs are exact inverses and reject malformed text",
  "Encoding any byte string, fixed-size byte value, number or list of numbers to its textual form and decoding it gives the same value back, and the textual form is the one the beacon API prescribes (0x-prefixed lower-case hex, decimal strings). Text that is not such a form, has the wrong length or does not fit is rejected without a crash.",
  "every value and every text offered, through every deserializer path", ["inputs"],
  "The tests round-trip a few literals; out-of-range, wrong-length and wrong-type documents are not sampled.",
  [E+"serde.rs", E+"ssz/byte_list.rs", E+"ssz/byte_vector.rs"], [("hex and decimal string codecs", E+"serde.rs"), ("byte lists and vectors", E+"ssz/")],
  "runtime monitor: round-trip and rejection oracle over generated values and malformed documents",
  "Values and mutated documents go through every entry point (string, reader, Value; with/without serde attributes); oracle is an independent hex/decimal codec.",
  "Sampled values; the empty and odd-length hex edge cases are enumerated.")
prop("C04", "light", "Signing domains, fork names and signing roots match the protocol",
  "Every domain is the four-byte domain type followed by the first 28 bytes of the root of (fork version, genesis validators root), every domain type has its protocol value, fork digests and signing roots are computed as the protocol defines, and fork names render and parse as the protocol names. The domain of an object is computed from the fork version in force at the object's epoch.",
  "every domain type, fork version, root and epoch", ["inputs", "configurations"],
  "Tests print one domain; they compare nothing with the protocol's values.",
  [E+"domains.rs", E+"fork.rs", E+"signing.rs"], [("domain types", E+"domains.rs"), ("fork data and domains", E+"phase0/helpers.rs"), ("signing roots", E+"signing.rs")],
  "runtime monitor: independent hash-tree oracle on every domain/signing call",
  "Random versions/roots/epochs; oracle recomputes with its own SHA-256 merkleisation; all domain types enumerated.",
  "Sampled roots and versions; names and types exhaustively.")
prop("C05", "light", "Network and preset parameters have their published values",
  "Every parameter of every supported network (mainnet, sepolia, goerli, holesky, hoodi, minimal) and preset has its published value: fork versions and epochs, deposit settings, time and validator-cycle parameters, preset limits, reward and penalty quotients.",
  "every parameter of every network and preset", ["configurations"],
  "No test reads most parameters; a wrong constant is silent until a chain reaches it.",
  [E+"configs/", E+"phase0/presets/", E+"altair/presets/", E+"bellatrix/presets/", E+"capella/presets/", E+"deneb/presets/", E+"electra/presets/", E+"state_transition/context.rs"],
  [("network configurations", E+"configs/"), ("presets", E+"*/presets/"), ("assembled contexts", E+"state_transition/context.rs")],
  "runtime monitor: table oracle over every exported parameter",
  "Each network context and preset constant is read at run time and compared with an independently recorded table (tools/gen_network_tables.py); exhaustive over the table.",
  "Exhaustive over the recorded parameters; the table is trusted. Values the repository documents as work-in-progress placeholders are recorded as they are.")
prop("C35", "light", "Signature and key operations satisfy the scheme's laws",
  "A signature verifies exactly for the message and key that produced it; an aggregate verifies exactly when it aggregates signatures by exactly the listed keys over the listed messages; empty sets, non-members of the group, infinity where forbidden and malformed bytes are rejected. Keys and signatures survive conversion to bytes and text, and secret keys do not leak through debug output.",
  "every key, message, aggregate composition and malformed encoding", ["inputs"],
  "Tests cover a few keys; the refusal cases (empty, infinity, wrong-length lists, reordered keys) are mostly absent.",
  [E+"crypto/bls.rs"], [("signing, verification, aggregation", E+"crypto/bls.rs")],
  "runtime monitor: verdict-by-construction oracle over sign/verify/aggregate scenarios",
  "Scenarios are built so that the right verdict is known; the pairing library under the wrapper is a stand-in with exact algebra, so each equation keeps its truth value. Group-check and infinity rules are observed through crafted encodings.",
  SYN)
prop("C36", "light", "KZG commitments and proofs are passed through faithfully",
  "A commitment and proof computed for a blob verify for that blob and not for another blob, commitment or proof; batch verification holds exactly when every member does, and mismatched or malformed inputs are errors. Encodings keep their length and value through bytes and text, and the versioned hash of a commitment is the prescribed one.",
  "every blob, commitment, proof and batch shape", ["inputs"],
  "The tests exercise no batch of mixed validity or length.",
  [E+"crypto/kzg.rs", E+"deneb/helpers.rs"], [("kzg wrapper", E+"crypto/kzg.rs"), ("versioned hash", E+"deneb/helpers.rs")],
  "runtime monitor: verdict-by-construction oracle over commitment scenarios",
  "As C35, with a stand-in polynomial-commitment library of exact algebra: sparse, dense and constant blobs, batches of up to 18 with repeated blobs, every component of one member tampered with.", SYN)
prop("C37", "light", "Configuration files and the fork schedule resolve exactly",
  "A configuration file yields a context with exactly the file's values and the named preset's limits; unknown presets and missing or malformed keys are refused. The fork reported for any slot or epoch is the latest one scheduled at or before it, and the genesis time is the configured one.",
  "every configuration file and fork schedule, every slot", ["configurations", "inputs"],
  "Tests load one file and ask about no boundary slot of a custom schedule.",
  [E+"state_transition/context.rs", E+"configs/mod.rs"], [("file loading", E+"configs/mod.rs"), ("fork schedule", E+"state_transition/context.rs")],
  "runtime monitor: independent schedule oracle over generated configuration files",
  "Files with random values, dropped keys and bad values are written to a scratch dir and loaded; every accessor is compared with the generated values, fork lookup with a linear scan around every boundary.",
  "Sampled schedules; boundaries dense.")
prop("C38", "light", "Network names parse, render and resolve consistently",
  "Each supported network renders to its published name, that name parses back to the same network, and resolving it loads that network's configuration; any other name denotes a custom network and survives the round trip, in plain text and in JSON.",
  "every name", ["inputs", "configurations"],
  "No test parses a custom name back.",
  [E+"networks.rs"], [("network names", E+"networks.rs")],
  "runtime monitor: round-trip oracle",
  "Known names exhaustively plus random custom names (prefix clashes, paths) through Display, serde and context resolution.", "Sampled custom names.")
prop("C39", "light", "Peer identifiers parse and render as inverses",
  "A peer identifier's bytes and text forms convert to each other without loss, and byte strings or texts that are not well-formed identifiers are rejected without a crash.",
  "every byte string and text", ["inputs"],
  "One literal is tested.", [E+"networking.rs"], [("peer identifiers", E+"networking.rs")],
  "runtime monitor: round-trip and rejection oracle",
  "Generated multihashes of permitted codes/lengths, mutated bytes and text; independent base58/multihash oracle.", "The multihash and base58 crates are stand-ins written from their specifications.")

def st(id, title, statement, text, files, mech, oracle, over=["inputs", "histories"], why=None, pkg="core"):
    prop(id, pkg, title, statement, text, over,
      why or "The repository's spec vectors are not available offline and its unit tests process no such state; the rule's boundaries depend on combinations of state and input no handful of samples reaches.",
      files, mech, STF, oracle, SYN, ["verdict and complete post-state of each call"])
st("C17", "Slot processing records history and triggers epochs exactly",
  "Advancing a state over any number of slots stores each slot's state and block roots at their circular positions, completes the latest header's state root, runs epoch processing exactly at epoch ends, and refuses to go backwards or stay. Block-root lookups answer exactly for the slots the history covers and fail otherwise.",
  "every state and target slot, in each of the six forks", per_fork("slot_processing.rs"), [("slot processing", E+"*/slot_processing.rs"), ("history lookups", E+"*/helpers.rs")],
  "Synthetic states are advanced 0..3 epochs by the real code and by the reference; verdict and whole state compared; lookups probed over all slots around the window.")
st("C18", "Block headers, RANDAO and eth1 votes are judged and applied exactly",
  "A block is accepted only for the state's slot, a later slot than the last header, the expected unslashed proposer and the right parent, with a valid randomness reveal; acceptance stores the header, mixes the reveal into the epoch's randomness and counts the eth1 vote, adopting it exactly on a strict majority of the voting period.",
  "every state and block, six forks", per_fork("block_processing.rs"), [("header, randao, eth1 processing", E+"*/block_processing.rs")],
  "12k scenarios per run: valid blocks and blocks altered in one named respect or blindly; verdict and post-state vs reference.")
st("C19", "Attestations are judged and recorded exactly",
  "An attestation is accepted exactly when its slot, target epoch, committee, source checkpoint, bit lengths and aggregate signature satisfy the fork's rules; acceptance records exactly the participation the fork prescribes for the attesters (pending attestations or participation flags by timeliness) and pays the proposer exactly.",
  "every state and attestation, six forks", per_fork("block_processing.rs"), [("attestation processing", E+"*/block_processing.rs"), ("participation flags, committees", E+"*/helpers.rs")],
  "As C18 with 1-5 attestations per block; delays around every inclusion boundary; electra committee bits.")
st("C20", "Slashings punish exactly the provably guilty",
  "A proposer or attester slashing is accepted exactly when it shows two conflicting, properly signed messages by a slashable validator; acceptance slashes exactly those validators, initiates their exit, records the slashed balance, and moves the penalty and the rewards in the amounts the fork prescribes to the offender, the proposer and the whistleblower.",
  "every state and slashing, six forks", per_fork("block_processing.rs")+per_fork("helpers.rs"), [("slashing operations", E+"*/block_processing.rs"), ("slashing", E+"*/helpers.rs")],
  "As C18; double and surround votes, non-conflicting pairs, slashed/exited/withdrawable offenders; direct slashing with explicit whistleblowers.")
st("C21", "Deposits credit exactly what the deposit tree proves",
  "A block must carry exactly the deposits the eth1 data obliges, each proven against the deposit root at the next index; a proven deposit with a new key and valid proof of possession creates one validator with the prescribed credentials and balances, one for a known key tops that validator up, and one with a bad signature for a new key changes nothing but the index.",
  "every state, deposit tree and deposit list, six forks", per_fork("block_processing.rs"), [("deposit processing", E+"*/block_processing.rs")],
  "As C18 with a reference incremental deposit tree; counts below/above the obligation, wrong branches, bad signatures, repeated keys.")
st("C22", "Voluntary exits and exit queue are exact",
  "A voluntary exit is accepted exactly when the validator is active, not exiting, old enough, the exit's epoch has come and the signature matches under the fork's exit domain; acceptance assigns the exit epoch the churn-limited queue prescribes and the withdrawable epoch after it.",
  "every state and exit, six forks", per_fork("block_processing.rs")+per_fork("helpers.rs"), [("voluntary exits", E+"*/block_processing.rs"), ("exit queue", E+"*/helpers.rs")],
  "As C18, queue near its churn limit, deneb's pinned domain, electra pending withdrawals and balance churn.")
st("C23", "Sync aggregates reward exactly the participants",
  "A sync aggregate is accepted exactly when the signature is valid for the participating members over the previous slot's block root (or the empty infinity case); acceptance pays each participant and the proposer and penalises each absentee by exactly the prescribed amounts, in committee order.",
  "every state and sync aggregate, altair to electra", per_fork("block_processing.rs", FORKS[1:]), [("sync aggregate", E+"*/block_processing.rs")],
  "As C18, participation from none to all, repeated members, balances near zero.")
st("C24", "Withdrawals and credential changes are exact",
  "A payload's withdrawals are accepted exactly when they equal the ones the state prescribes (sweep order, bounds, full versus partial, pending partial requests first in electra); acceptance debits them and advances the sweep cursors. A credential change is accepted exactly with the matching old credentials and signature and rewrites exactly that validator's credentials.",
  "every state, withdrawal list and change, capella to electra", per_fork("block_processing.rs", FORKS[3:]), [("withdrawals", E+"*/block_processing.rs")],
  "As C18; sweep cursors at the end of the registry, more eligible than the limit, pending partial queues (electra).")
st("C25", "Execution payloads are judged exactly",
  "An execution payload is accepted exactly when, once merged, its parent matches, its randomness and timestamp are the state's, its blob commitments respect the limit, and the execution engine agrees; acceptance stores exactly that payload's header. Before the merge the payload is skipped, and the merge is recognised exactly once a header is present.",
  "every state, payload and engine answer, bellatrix to electra", per_fork("block_processing.rs", FORKS[2:]), [("payload processing", E+"*/block_processing.rs")],
  "As C18; pre-merge, transition and merged states, agreeing/refusing engine stub that also records what it was asked.")
st("C26", "Justification, finality and epoch housekeeping are exact",
  "At every epoch end checkpoints are justified and finalised by exactly the two-thirds and bit-pattern rules, and the resets (eth1 votes, slashing totals, randomness, participation rotation, historical roots or summaries) happen exactly when due.",
  "every state at an epoch end, six forks", per_fork("epoch_processing.rs"), [("justification and finalization", E+"*/epoch_processing.rs"), ("resets", E+"*/epoch_processing.rs")],
  "9k epoch ends per run; participation balanced around two thirds, all bit patterns; differences attributed to this property by state field.")
st("C27", "Rewards, penalties and inactivity scores are exact",
  "At every epoch end each validator's balance changes by exactly the rewards and penalties its participation earned, including inclusion delay, inactivity leak and slashing penalties, and its inactivity score moves by exactly the prescribed steps, never below zero.",
  "every state at an epoch end, six forks", per_fork("epoch_processing.rs")+per_fork("helpers.rs"), [("rewards and penalties", E+"*/epoch_processing.rs")],
  "Same runs, balances and scores compared; leak and no leak, slashed validators at the penalty midpoint, tiny and huge balances.")
st("C28", "Registry, effective balances, sync committees and pending queues are exact",
  "At every epoch end activations, ejections and exits follow the queue, churn and finality rules, effective balances follow balances with hysteresis, sync committees rotate when due, and in electra pending deposits and consolidations are applied in order within their churn.",
  "every state at an epoch end, six forks", per_fork("epoch_processing.rs"), [("registry updates", E+"*/epoch_processing.rs"), ("sync committee rotation", E+"altair/sync.rs")],
  "Same runs, registry/effective balance/committee/queue fields compared.")
st("C29", "Fork upgrades carry every field over exactly",
  "Upgrading a state to the next fork keeps every inherited field unchanged, switches the fork record, and initialises every new field as the upgrade prescribes (participation translated from pending attestations, sync committees, empty payload header, withdrawal cursors, electra churn and pre-activation balances).",
  "every state at a fork boundary, five upgrades", per_fork("fork.rs", FORKS[1:]), [("upgrade functions", E+"*/fork.rs")],
  "Synthetic states (including ones with pending attestations, unactivated and compounding validators) upgraded by both; whole states compared.")
st("C30", "Genesis is built and recognised exactly",
  "From any eth1 block and deposit list the genesis state is exactly the prescribed one (deposits applied in order against the growing tree, activations, roots, fork record, committees), and a state is recognised as valid genesis exactly when it has enough active validators at or after the minimum time.",
  "every deposit list and eth1 block, six forks", per_fork("genesis.rs"), [("genesis construction", E+"*/genesis.rs")],
  "Deposit lists with repeats, bad signatures and top-ups; genesis validity at its two boundaries.")
st("C33", "The full state transition is exact and atomic in its verdict",
  "Applying a signed block advances the state through the intermediate slots, checks the proposer's signature, applies the block and demands the claimed state root; it is accepted exactly when all hold and yields exactly the prescribed state. With validation switched off only the signature and state root checks are skipped.",
  "every pre-state and chain of blocks, six forks", per_fork("state_transition.rs"), [("state transition", E+"*/state_transition.rs")],
  "Chains of sealed blocks with mixed operations over many slots and epochs; wrong roots, signatures and slots; both validation modes.", over=["histories", "inputs"])
st("C34", "Electra operations and balance-based churn are exact",
  "Execution-layer withdrawal requests, deposit receipts, consolidations and multi-committee attestations are accepted or ignored exactly by the rules, queueing exactly the prescribed pending work and consuming exactly the prescribed exit and consolidation churn.",
  "every electra state and operation mix", per_fork("block_processing.rs", ["electra"])+per_fork("helpers.rs", ["electra"]), [("electra operations", E+"electra/block_processing.rs"), ("balance churn", E+"electra/helpers.rs")],
  "Mixes of electra operations per block over states with pending queues near their churn limits; whole state compared. Judged against the revision of the draft specification the repository implements (v1.5.0-alpha.2/3).")

ALLF = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]
prop("C10", "core", "SSZ encodings of every container are exact and strict",
  "For every consensus container of every fork and preset, encoding a value gives exactly the bytes the SSZ specification and the fork's type definitions prescribe, decoding those bytes gives the same value back, and bytes that are not the encoding of any value (wrong offsets, truncated or extended, over the limits, bad bits or booleans) are refused. Default values are the all-zero ones.",
  "every container of six forks in both presets, every value and byte string", ["inputs", "configurations"],
  "The tests serialize no container; a swapped, missing or mistyped field or limit goes unnoticed.",
  [E+f+"/" for f in ALLF], [("container definitions", E+"*/ (structs deriving SSZ)"), ("preset limits", E+"*/presets/")],
  "runtime monitor: differential oracle (independent schema-driven SSZ codec) on every encode and decode",
  "Every container type of every fork and preset is decoded from random and boundary-filled encodings, re-encoded and compared byte for byte with an independent codec driven by an independently written schema; mutated encodings must be refused exactly when the schema codec refuses them.",
  "The SSZ library itself is a stand-in; judged are /repo's type definitions. Values sampled; all types enumerated.")
prop("C11", "core", "Hash tree roots of every container are exact",
  "For every consensus container of every fork and preset the hash tree root of any value is exactly the merkleisation the SSZ specification prescribes for the fork's type definition, so two nodes agree on every block, state and operation root.",
  "every container of six forks in both presets and every value", ["inputs", "configurations"],
  "The tests compute no root of any container.",
  [E+f+"/" for f in ALLF], [("container definitions", E+"*/ (structs deriving SSZ)")],
  "runtime monitor: differential oracle (independent merkleiser) on every computed root",
  "Random values of every type: the root computed by /repo's types compared with an independent schema-driven merkleiser.",
  "As C10.")
prop("C12", "core", "JSON forms of every container match the API and are strict",
  "For every consensus container, its JSON form has exactly the field names and value forms the beacon API prescribes (numbers as decimal strings, bytes as 0x-hex), reading that form back gives the same value, and malformed documents (missing fields, wrong shapes, out-of-range numbers, wrong-length hex) are refused rather than misread.",
  "every container of six forks in both presets and every value and document", ["inputs"],
  "The tests read one or two JSON documents; a field without its text codec or renamed is invisible to them.",
  [E+f+"/" for f in ALLF]+[E+"serde.rs"], [("serde attributes of containers", E+"*/"), ("text codecs", E+"serde.rs")],
  "runtime monitor: round-trip, form and refusal oracle over generated documents of every container",
  "Values of every type rendered by /repo and compared with the document an independent renderer gives; read back through string, reader and Value; documents spoiled in one place must be refused.",
  "Generic list/bitfield/256-bit number mappings belong to the SSZ library (stand-in) and are not judged.")

prop("C13", "core", "Fork-spanning types agree with the fork's own types",
  "The types that stand for a block, body, state, payload or header of any fork show, through every accessor of the value, of a shared and of a mutable view, exactly the field the fork's own type holds, report absent exactly the fields that fork does not have, name the right fork, change exactly the field a mutable accessor is asked for, encode as the fork's own type does and read back as the same value of that fork.",
  "every fork-spanning type, fork, accessor and value", ["inputs", "configurations"],
  "The tests call no accessor; a swapped field or a wrong fork arm in several thousand lines of generated accessors is invisible to them.",
  [E+"types/"], [("fork-spanning enums, Ref and RefMut views and their accessors", E+"types/")],
  "differential runtime monitor: every accessor's answer compared with the field of an independently decoded value",
  "Random values of every type, fork and preset are wrapped; every accessor of the value, Ref and RefMut is read and its root compared with an independent merkleiser's root of that field, each mutable accessor writes one field and the whole encoding is compared, conversions and JSON round trips are checked.",
  "The list of accessors is enumerated in the harness; accessors added later are not seen.")

prop("C15", "core", "Committees, proposers and sync committees are selected exactly as prescribed",
  "For every seed, list length and round count the shuffle is the protocol's permutation, one index at a time, whole lists and committee slices alike, and out-of-range indices are refused. Every committee of the previous, current and next epoch, the proposer of any slot of the current epoch and the next sync committee of a state are exactly those the protocol selects from the active validators, seed and effective balances; the committees of an epoch divide its active validators without overlap or omission.",
  "every seed, list length, round count, state with active validators, slot and committee index", ["inputs", "configurations"],
  "The tests shuffle nothing; selection errors show only for particular lengths, pivots, source blocks (255/256/257) or balances.",
  [E+"phase0/helpers.rs", E+"altair/helpers.rs"]+[E+f+"/spec/mod.rs" for f in ALLF[1:]], [("shuffling", E+"phase0/helpers.rs compute_shuffled_index(_es), compute_committee"), ("proposer and committees", E+"phase0/helpers.rs"), ("sync committee selection", E+"altair/helpers.rs")],
  "differential runtime monitor: independent shuffle and selection judging every answer, permutation and partition checks",
  "2k shuffled lists per run (lengths dense around 256-multiples, 1 to 255 rounds) through all three entry points, single positions in lists of up to 2^40 and whole lists of more than 2^16 and 2^24, and the proposers, sync committees and all committees of 4k synthetic states of six forks, compared with an independent implementation.",
  "Electra's candidate sampling is judged with the pre-electra ceiling the code uses (see DESIGN.md). A state with no active validator is outside the claim.")
prop("C16", "opt", "The optimized build selects and transitions identically",
  "Built with whole-list shuffling (the `shuffling` / `optimized` feature) the library selects exactly the same committees, proposers and sync committees and accepts the same blocks with the same resulting states as the plain build.",
  "every state, seed, list length and block", ["inputs", "configurations"],
  "The tests never compare the two builds; the optimized routine is a separate algorithm.",
  [E+"phase0/helpers.rs"], [("whole-list shuffling and its users", E+"phase0/helpers.rs compute_shuffled_indices, compute_committee, compute_proposer_index")],
  "differential runtime monitor run inside the feature build: the same independent oracle that judges the plain build",
  "The selection monitor of C15 and the block chains of C33, compiled with the feature on; both builds being equal to one reference they are equal to each other.",
  "As C15 and C33.")
prop("C40", "core", "Questions about a state get the protocol's answers",
  "For every state, the read-only queries of every fork — epochs, active validators, committee counts, seeds, mixes, historical block roots, balances and churn limits, signing domains, reward and penalty components, participation, inactivity, eligibility and withdrawability predicates, timestamps, expected withdrawals — return exactly what the protocol defines, and those outside the state's history are refused with an error.",
  "every state of six forks and every argument of each query", ["inputs", "configurations"],
  "The tests ask no question of a state; the answers depend on wrap-around indices and epoch edges.",
  [E+f+"/" for f in ALLF], [("queries", E+"phase0/helpers.rs, altair/helpers.rs, bellatrix/helpers.rs, capella/helpers.rs, deneb/helpers.rs, electra/helpers.rs and their copies in each fork")],
  "differential runtime monitor: every answer compared with an independent evaluation on the decoded state",
  "24k synthetic states per run, ~40 kinds of question each with edge-biased arguments (fork epoch, ends of the history vectors, activation, exit and withdrawable epochs): over a million answers compared, refusals demanded where history ends.",
  "Known: in five forks the refusal overflows for a state at slot 0 (generated copies).")

prop("C31", "core", "The executor carries a chain through the fork schedule",
  "For every fork schedule and every starting state from phase 0 to deneb, applying a block through the executor upgrades the state at each scheduled fork epoch on the way, in order and exactly once, and then has the effect the protocol prescribes for the block; blocks of other forks than the one in force, invalid blocks and blocks in the past are refused with an error, never with a panic or without end.",
  "every fork schedule, starting state and sequence of blocks", ["inputs", "histories", "configurations"],
  "No test drives the executor; several upgrades on one stretch, skipped slots around a fork and adjacent forks are unsampled.",
  [E+"state_transition/", E+"types/"], [("fork choice and upgrade order", E+"state_transition/executor.rs")],
  "differential runtime monitor: every step of the executor compared with an independent transition across the same schedule",
  "2400 scenarios per run: random fork schedules (coinciding, adjacent, far, never), starts at any fork, chains of blocks across up to four upgrades with skipped slots, through every entry point; type and bytes of the state compared after each step, hostile blocks and blocks of other forks must be refused.",
  "A block of an older fork handed over after a later fork's epoch is outside the property (the executor trusts the block's type). Electra has no executor.")

prop("C14", "core", "Blob sidecars prove their place in the block, and nothing else does",
  "A sidecar's inclusion proof is accepted exactly when its commitment hashes along its branch, at the position of its index in the block body's list of commitments, to the body root of its header; a sidecar whose index lies outside the list, or whose commitment, index, branch or body root differs in any bit, is refused with an error.",
  "every block body, commitment and distortion of a sidecar", ["inputs"],
  "The tests check one published sidecar with index 0; other positions, list lengths, presets and forgeries are unsampled.",
  [E+"deneb/blob_sidecar.rs"], [("inclusion proof", E+"deneb/blob_sidecar.rs")],
  "differential runtime monitor: verdicts compared with an independent Merkle walk over honest and forged proofs",
  "59k sidecars per run, deneb and electra bodies, both presets: honest ones for up to full lists, and distortions in every respect including consistent forgeries (exchanged sides, another field's subtree, partial paths, indices beyond the list).",
  "Generalized indices are computed by the stand-in for ssz_rs.")
prop("C41", "core", "Payload headers and blinded blocks stand for exactly their payloads",
  "The header made from an execution payload carries every field over and commits to the payload's lists, so that header and payload have the same hash tree root; a blinded block therefore has the root of the full block it stands for.",
  "every payload and block of four forks", ["inputs"],
  "No test makes a header from a payload.",
  [E+f+"/" for f in ["bellatrix", "capella", "deneb", "electra"]], [("payload to header", E+"bellatrix/execution_payload.rs, capella/execution_payload.rs, deneb/execution_payload.rs, electra/execution_payload.rs")],
  "differential runtime monitor: headers and roots compared with an independent construction",
  "20k payloads per run over four forks and both presets, with lists from empty to several entries; header bytes and both roots compared; 3k full blocks compared with their blinded forms.",
  "Merkleization is the stand-in's.")
prop("C43", "core", "Validator registrations bind the network, the content and the key",
  "The domain for registrations with builders is the builder domain type with the network's genesis fork version and no chain root; a registration signed under it verifies under exactly that domain, content and key, and under no other network's, altered content or other key.",
  "every network, registration and key", ["inputs", "configurations"],
  "No test signs a registration.",
  [E+"builder/mod.rs", E+"signing.rs"], [("builder domain", E+"builder/mod.rs"), ("signing", E+"signing.rs")],
  "differential runtime monitor: domain, signing root and verdicts compared with an independent computation",
  "6k registrations per run on published and random networks; signature compared with one over the independent signing root; altered registrations, other networks and other keys must be refused.",
  "The signature scheme is the stand-in of /verif/shims.")
prop("C32", "core", "Hostile blocks are refused, never crash the transition",
  "Whatever a block contains that decodes — absurd indices, epochs, amounts and lists, signed by whoever could sign them — processing it ends with the protocol's verdict and state, or an error, and never with a panic.",
  "every decodable block on every plausible state of six forks", ["inputs", "histories"],
  "The tests offer no invalid block; arithmetic and indexing on hostile numbers is unsampled.",
  [E+f+"/" for f in ALLF], [("operations", E+"phase0/block_processing.rs, altair/block_processing.rs, bellatrix/block_processing.rs, capella/block_processing.rs, deneb/block_processing.rs, electra/block_processing.rs and the copies in each fork")],
  "fuzzing under a panic monitor with a differential oracle: blocks with hostile content, signed anew, against an independent state transition",
  "57k blocks per run: fields of every operation replaced by edge values and signed anew so that the content decides, lists and bodies of junk, hostile execution payloads, with and without full validation; panics are reported, verdicts and states compared.",
  "Known: in altair, bellatrix and deneb (generated copies) a deposit count below the deposit index overflows. Deposits of more than 2^60 gwei and states without active validators are outside the property.")

A = "beacon-api-client/src/"
prop("C60", "api", "Every client call issues exactly the request the Beacon API prescribes",
  "Each method of the API client issues one request, to the endpoint it was given (scheme, host, credentials and path prefix kept), with the method, path, query parameters, consensus-version header and JSON body the Beacon API prescribes for its arguments, whichever arguments are given or left out.",
  "every method, argument combination and endpoint URL", ["inputs", "configurations"],
  "No test exercises a client method; a wrong parameter name, encoding or path shows only on the wire.",
  [A+"api_client.rs", A+"types.rs"], [("client methods", A+"api_client.rs"), ("identifier texts", A+"types.rs")],
  "runtime monitor on the wire: every request of every method recorded and compared with an independent table of the Beacon API",
  "All 69 methods with random arguments (absent, single, many, repeated and hundreds of list filters, extreme numbers, every fork's blocks) against six endpoint shapes; the HTTP stand-in records what would be sent.",
  "The HTTP library is a stand-in; query encoding follows serde_urlencoded. Comma-joined and repeated list parameters count as the same.")
prop("C61", "api", "Replies of a beacon node are reported as they are",
  "For every reply of a node, a client call returns exactly the data the reply carries, or the node's error object unchanged (code, message, failures), or an error when the reply is unreadable, lacks required data or never arrives. An error reply is never reported as success, nothing a node answers makes the client panic, and node health follows the status code.",
  "every method and every reply, well-formed or not", ["inputs"],
  "No test feeds a reply to the client; error objects, missing metadata and damaged data are unsampled.",
  [A+"api_client.rs", A+"api_error.rs", A+"types.rs"], [("reply handling", A+"api_client.rs"), ("error objects", A+"api_error.rs")],
  "runtime monitor: replies chosen by the monitor (valid, error, damaged, absent), outcome compared with what was sent",
  "All 69 methods; generated data of every container and fork, error objects with and without failures and stack traces, truncated and mistyped documents, missing dependent roots, failing transports, every health status.",
  "Documents whose version contradicts their data are outside the claim.")
prop("C62", "api", "API identifiers and enumerations have one text each",
  "State, block and validator identifiers, validator statuses, peer states, connection directions and broadcast modes print as the Beacon API spells them, parse back to the same value, and malformed texts are refused; the command line asks the endpoint for exactly the state it was given.",
  "every identifier and every text", ["inputs"],
  "No test parses or prints an identifier.",
  [A+"types.rs", A+"cli/"], [("identifiers", A+"types.rs"), ("command line", A+"cli/config.rs")],
  "round-trip and rejection monitor over generated identifiers, texts and command lines",
  "48k forms per run; roots in either case, numbers at the limits, wrong-length and mutated texts, command lines run against the HTTP stand-in.",
  "Sampled texts.")

S = "spec-gen/src/"
prop("C08", "specgen", "The generated specification exposes each fork's newest definitions",
  "For any tree of fork definitions the spec generator writes, for every fork and only there, a specification exposing every public item exactly once and from the newest fork that defines it; a function inherited over containers the fork redefines is derived anew with those containers' constants and an otherwise unchanged body, private items and ended functions are not exposed, and the sources stay as they were.",
  "every tree of fork definitions", ["inputs"],
  "The generator has no test beyond an ordering of forks; its output is checked in and only ever compiled.",
  [S+"generator.rs", S+"visitors.rs"], [("fork inheritance", S+"generator.rs"), ("rewriting of derived functions", S+"visitors.rs")],
  "runtime monitor of the real generator process against an independent model of fork inheritance",
  "200 runs of the generator per check on the repository's tree, on small trees and on both with constants, types, traits, functions and growing containers added, removed, hidden and redefined at random forks; every exposed path and every derived function (arguments, result, generics, body) compared.",
  "Functions over a container that changed once and not again, where clauses and types named only inside macro calls are outside the generator's rules and outside the claim.")
prop("C09", "specgen", "Generated multi-fork types mirror the forks' structs",
  "For any definitions of the block, payload and state structs the generator writes multi-fork types with one variant per defining fork, the constants of all of them merged in order of appearance, and accessors of the right type, optionality and mutability whose every arm reads the field of that fork's struct, decoding tries the newest fork first, and the sources stay as they were.",
  "every set of fork definitions of the nine types", ["inputs"],
  "No test runs the type generator.",
  [S+"type_generator.rs"], [("merged types and accessors", S+"type_generator.rs")],
  "runtime monitor of the real generator process against types modelled from the structs",
  "120 runs per check on the repository's structs with fields, field types, constants and whole definitions changed from a random fork on, types that begin, end or pause with a fork, and structs of similar names around them; 100k items and 60k accessors compared.",
  "Fields that disappear (other than the two the generator lists) are outside the generator's rules.")

B = E+"bin/ec/"
prop("C06", "ec", "Mnemonic phrases become exactly the seeds the standard prescribes",
  "Recovering a phrase accepts exactly the phrases of 12 to 24 listed words in the right number whose checksum holds, refuses all others with an error, and the seed of an accepted phrase with any passphrase (unicode included) is exactly the one the BIP-39 standard derives.",
  "every phrase and passphrase", ["inputs"],
  "The tests recover one published phrase; checksum, word count, normalisation and the other lengths are unsampled.",
  [B+"validator/mnemonic.rs"], [("phrase recovery and seed derivation", B+"validator/mnemonic.rs")],
  "differential runtime monitor: independent BIP-39 implementation judging every recovered phrase and seed",
  "6k phrases per run (all five lengths, entropy extremes; words replaced, swapped, dropped, added, another checksum word, odd spacing and case) recovered by the repository's module compiled in place; verdicts and seeds compared with an independent checksum, NFKD and PBKDF2.",
  "The word list comes from the bip39 crate. Inputs are sampled.")
prop("C50", "ec", "Validator keys are derived exactly along their paths",
  "From a seed and a range of indices the tool derives, in order, one signing and one withdrawal key per index, each exactly the key EIP-2333 derives along the EIP-2334 path it is labelled with (m/12381/3600/i/0/0 and m/12381/3600/i/0), with its matching public key.",
  "every seed and index range", ["inputs"],
  "No test derives a key; a wrong salt, chunk order, path depth or index would lose funds and go unnoticed.",
  [B+"validator/keys.rs", B+"bls.rs"], [("key tree", B+"bls.rs"), ("path walking", B+"validator/keys.rs")],
  "differential runtime monitor: independent EIP-2333 derivation of every key",
  "3k ranges per run (indices at 0, 255/256, 2^31, 2^32) over random and extreme seeds; each private key, path and public key compared with an independent EIP-2333 whose own vectors are checked at start.",
  "HKDF is a stand-in checked against RFC 5869; public keys come from the stand-in pairing library.")
prop("C51", "ec", "Generated keystores open with their passphrase and hold the right key",
  "Every keystore generated for a range of validators is an EIP-2335 document that opens with the passphrase given beside it and yields exactly the derived signing key, names its path and public key, is strongly protected, and no salt, initialisation vector, identifier or passphrase is ever used twice.",
  "every seed, index range and run", ["inputs", "histories"],
  "No test generates a keystore; a keystore that does not open is found out when it is too late.",
  [B+"validator/keystores.rs", B+"validator/command.rs"], [("keystore encryption", B+"validator/keystores.rs")],
  "runtime monitor: every generated keystore opened by an independent EIP-2335 reader; uniqueness checked over the event log",
  "Keystores generated in process and through the built command line tool, opened independently (scrypt, AES-CTR, checksum), the secret compared with the independent derivation; repeats of randomness across the run detected.",
  "scrypt and AES are stand-ins validated against published vectors at start. Counter wrap of the cipher cannot be reached by sampling.")
prop("C52", "ec", "Blob encoding through the tool is lossless and its framing is checked",
  "Encoding bytes with `ec blobs encode` packs them into canonical field elements of as many whole blobs as they need and no more; decoding returns exactly the bytes (sized framing) or the bytes followed by zero padding (raw); frames with an unknown version or an impossible size and documents that are no list of blobs are refused, and nothing crashes.",
  "every byte string, framing and blob document", ["inputs"],
  "No test encodes a blob; the interesting lengths lie within a few bytes of a blob's capacity.",
  [B+"blobs/encode.rs", B+"blobs/decode.rs", B+"blobs/framing.rs"], [("packing", B+"blobs/encode.rs"), ("unpacking", B+"blobs/decode.rs"), ("sized frames", B+"blobs/framing.rs")],
  "runtime monitor: independent packer compared with every document the built tool writes, round-trip and refusal oracle",
  "The tool built from /repo is run on lengths around 0, one element, one to nine blobs' capacity and past 2^24, with altered frames, versions and documents; every output compared with an independent bit packer.",
  "Sizes between the payload capacity of the blobs and their serialized size may be refused or zero-padded: both are accepted.")
prop("C53", "ec", "Blob bundles carry the given blobs with proofs that verify",
  "Bundling a list of blobs succeeds exactly when every blob is canonical, returns the blobs unchanged and in order, and gives each a commitment and a proof that verify for that blob; anything else is refused without a crash.",
  "every list of blobs", ["inputs"],
  "No test bundles blobs.",
  [B+"blobs/bundler.rs", E+"crypto/kzg.rs"], [("bundling", B+"blobs/bundler.rs"), ("commitments and proofs", E+"crypto/kzg.rs")],
  "runtime monitor: every bundle the built tool writes is verified blob by blob",
  "Lists of 0 to 12 blobs, equal ones, elements at and above the modulus; each commitment and proof verified, blobs compared.",
  "The commitment library is a stand-in of exact algebra (not installed here).")

prop("C54", "ec", "The tool's key commands print what they claim and refuse what is wrong",
  "The key pair command prints one secret key and the public key belonging to it, different on every run; the phrase command prints one valid 24-word phrase, different on every run; the keystore command accepts exactly the valid phrases and index pairs, prints a list of one keystore per index of the half-open range (an empty list for an empty range), and on anything else ends with an error, no output and no crash.",
  "every phrase, index pair and argument list", ["inputs"],
  "No test runs the tool.",
  [B+"bls.rs", B+"main.rs", B+"validator/mod.rs", B+"validator/mnemonic.rs"], [("key pair", B+"bls.rs"), ("phrases and keystores", B+"validator/mod.rs")],
  "runtime monitor: output, exit status and error stream of the built tool judged run by run",
  "240 runs per quick check: key pairs recomputed from the printed secret, phrases checked against the standard, phrases spoiled in words or count, empty and inverted ranges, malformed indices and commands.",
  "The keystores themselves are opened in C51.")

