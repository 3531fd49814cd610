#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the text is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })

prop("C01", "An honestly built bundle is always accepted",
 "Every bundle the builder produces from owned notes with witnesses to its anchor and arbitrary outputs can be proved, and once the binding signature and all spend authorization signatures are in place its proof, every signature and its batch validation are accepted. This holds for every number of spends and outputs, value, scope, tree position and bundle type the builder accepts, and for every order in which proving, preparing, signing and adding external signatures are carried out. It does not depend on how the prover's or verifier's work is scheduled over threads.",
 ["inputs", "schedules", "histories"],
 "All admissible builder inputs, all legal orders of the authorization steps, all thread schedules of the prover and the verifier.",
 "The tests prove a handful of fixed bundles (one spend from position 0, one or two outputs) in one fixed order of steps on whatever schedule the OS picks.",
 ["src/builder.rs", "src/circuit.rs", "src/bundle.rs", "src/bundle/batch.rs", "src/primitives/redpallas.rs"],
 [("action construction and witness", "src/builder.rs ActionInfo::build, bundle()"), ("proof creation and verification", "src/circuit.rs Proof::create, Proof::verify"), ("signing typestate", "src/builder.rs prepare/sign/append_signatures/finalize")],
 ["Bundle::verify_proof", "VerificationKey::verify", "BatchValidator::validate"],
 hook="circuits of an unproven bundle, public inputs of an instance")

prop("C02", "No altered bundle is accepted",
 "Changing any effecting part of an accepted bundle (any field of any action, the flags, the value balance, the anchor, the order or number of actions), any byte of its proof, any signature, or the transaction it belongs to makes validation of the result fail: proof verification, some spend authorization signature or the binding signature rejects it. A proof is accepted only with the exact public inputs (anchor, value commitment, nullifier, randomized key, note commitment and both flags, per action and in order) it was made for, even when whoever changes the bundle can produce fresh signatures for it.",
 ["inputs", "fault_sequences"],
 "Every accepted bundle, every corruption in transit and every recombination of parts of accepted bundles by a man in the middle.",
 "The tests check two tampered value balances; they never alter, swap, splice or re-sign the other parts.",
 ["src/bundle.rs", "src/bundle/commitments.rs", "src/circuit.rs", "src/value.rs", "src/primitives/redpallas.rs"],
 [("public inputs of the proof", "src/circuit.rs Instance::to_halo2_instance; src/bundle.rs Action::to_instance"), ("commitment to the effects", "src/bundle/commitments.rs hash_bundle_txid_data"), ("binding validating key", "src/bundle.rs binding_validating_key")],
 ["Bundle::verify_proof", "BatchValidator::validate", "VerificationKey::verify"],
 hook="public inputs of an instance")

prop("C03", "Value is conserved",
 "A bundle's value balance equals the sum of the values of the notes it spends minus the sum of the values it creates, the builder and the bundle report the same value, and a validly signed bundle's value commitments open to exactly that balance and to no other. Over any history of accepted bundles the value held in unspent notes equals the value that entered the pool minus the value that left it. Sums the balance type cannot represent are reported as errors, never as a wrapped or truncated value, and whether a set of spends and outputs is representable does not depend on the order in which they were added or arranged.",
 ["inputs", "histories", "configurations"],
 "All multisets of note values (including extremes), all orders of adding them, all histories of bundles applied to a chain.",
 "The tests use a few values far from any limit and single bundles; order independence at the limits and accumulation over a history are never exercised.",
 ["src/value.rs", "src/builder.rs", "src/bundle.rs"],
 [("value sums and range checks", "src/value.rs ValueSum"), ("value balance of a builder and a bundle", "src/builder.rs Builder::value_balance, bundle()"), ("homomorphic commitments and binding key", "src/value.rs ValueCommitment; src/bundle.rs binding_validating_key")],
 ["Builder::value_balance", "Bundle::value_balance", "binding signature verification", "decrypted notes"],
 state=[("pool", "value of all unspent notes", "simulated ledger")])

prop("C04", "A spend is authorized only by its own key",
 "A bundle becomes fully authorized if and only if, for every real spend, a signature made with that note's spend authorizing key over this bundle's signature hash has been added; keys and signatures for other notes or other transactions never fill a slot, and dummy spends are signed automatically. Adding external signatures puts each one in the one spend it is valid for, and fails if it is valid for none or for more than one unsigned spend. These outcomes do not depend on the order, delay, loss, duplication or retry of signing messages.",
 ["histories", "schedules", "fault_sequences"],
 "Every assignment of spends to signers, every order and fault pattern of signing messages, every mixture of local signing and external signatures.",
 "The tests sign with one key in one order; lost, duplicated, reordered, stale or foreign signatures do not occur in them.",
 ["src/builder.rs", "src/primitives/redpallas.rs", "src/keys.rs"],
 [("signature collection", "src/builder.rs prepare, sign, append_signatures, finalize, apply_signatures"), ("key randomization", "src/primitives/redpallas.rs randomize; src/keys.rs SpendAuthorizingKey")],
 ["append_signatures result", "finalize result", "signature verification"],
 state=[("slots", "per action: awaiting or holding a signature", "src/builder.rs MaybeSigned")])

prop("C05", "A note has exactly one nullifier",
 "Everyone who knows a note and its full viewing key computes the same nullifier for it, equal to the one revealed when it is spent, across devices, restarts, serialization and re-scanning, and whatever path the note arrived by. Distinct notes have distinct nullifiers, so a ledger that rejects repeated nullifiers rejects exactly the second spends of notes. The note created in an action takes that action's revealed nullifier as its unique identifier.",
 ["histories", "inputs", "fault_sequences"],
 "All notes, all wallets holding the key, all histories of scanning, restarting, spending and attempted double spending.",
 "Fixed test vectors cover isolated derivations only; agreement between the derivation at spend time and at scan time over a history is untested.",
 ["src/note/nullifier.rs", "src/note.rs", "src/builder.rs", "src/note_encryption.rs", "src/action.rs"],
 [("nullifier derivation", "src/note/nullifier.rs Nullifier::derive; src/note.rs Note::nullifier"), ("identifier chaining", "src/note.rs Rho::from_nf_old; src/action.rs Action::rho")],
 ["Note::nullifier", "Action::nullifier", "Action::rho"])

prop("C06", "Recipients receive exactly the notes sent to them",
 "The holder of the incoming viewing key of an output's address obtains from the published action exactly the note (address, value, identifier, randomness) and memo that were sent, and the note commits to the published commitment; for any other key, and for any output whose published data is corrupted or was crafted inconsistently by a malicious sender, trial decryption yields nothing. An accepted note is thus always one its recipient can later spend. Decrypting one action with one key, all actions with many keys, and at different times or on different devices gives the same answer.",
 ["inputs", "fault_sequences", "histories"],
 "All outputs, all recipients, all corruptions in transit and all senders, including malicious ones.",
 "The tests decrypt correct ciphertexts from vectors; crafted inconsistencies and corruption at every position are not covered.",
 ["src/note_encryption.rs", "src/bundle.rs", "src/note.rs", "src/keys.rs", "src/note/commitment.rs"],
 [("note plaintext handling", "src/note_encryption.rs OrchardDomain"), ("bundle scanning", "src/bundle.rs decrypt_outputs_with_keys, decrypt_output_with_key"), ("key agreement and key derivation", "src/keys.rs, src/spec.rs")],
 ["try_note_decryption", "Bundle::decrypt_output_with_key", "Bundle::decrypt_outputs_with_keys"])

prop("C07", "All ways of scanning give the same result",
 "For every set of actions and viewing keys, batched trial decryption returns for each output exactly what single-output decryption with those keys in that order would return, including which key matched. Scanning the compact form of an action finds exactly the same notes as scanning the full action whenever the full ciphertext is intact, and never finds a note whose commitment or ephemeral key does not match; the compact form carries the nullifier and commitment of its action, so that spends are seen alike. Batching with undecryptable or malformed outputs does not change the result for the others.",
 ["inputs", "configurations"],
 "All batches of actions (including invalid ones), all sets and orders of keys, all splits into batches.",
 "Two tests run one action in a batch of one; mixed batches, several keys and malformed neighbours are not covered.",
 ["src/note_encryption.rs", "src/keys.rs"],
 [("batched key derivation", "src/note_encryption.rs BatchDomain::batch_kdf; src/keys.rs SharedSecret::batch_to_affine"), ("compact actions", "src/note_encryption.rs CompactAction")],
 ["zcash_note_encryption::batch::{try_note_decryption, try_compact_note_decryption}", "try_compact_note_decryption"])

prop("C08", "A batch is valid exactly when every bundle in it is",
 "Batch validation accepts if and only if every bundle added would be accepted on its own (proof, every spend authorization signature and binding signature, each over the signature hash it was added with), whatever the batch size, the order of addition, the verifier's randomness and its thread schedule. An empty batch is accepted. A bundle valid only for another signature hash, or errors in two bundles that cancel out, do not slip through.",
 ["inputs", "histories", "schedules"],
 "All multisets and orders of valid and invalid bundles, all verifier randomness, all schedules.",
 "The tests validate batches of valid bundles and of one kind of invalid one in a fixed order.",
 ["src/bundle/batch.rs", "src/primitives/redpallas.rs", "src/circuit.rs"],
 [("batch accumulation", "src/bundle/batch.rs BatchValidator"), ("proof batching", "src/circuit.rs Proof::add_to_batch"), ("signature batching", "src/primitives/redpallas.rs create_batch_item")],
 ["BatchValidator::validate"])

prop("C09", "Persisted wallet and bundle data survives restarts",
 "Every value with a byte encoding (spending, viewing and validating keys, diversifiers, addresses, notes' parts, commitments, nullifiers, anchors, tree nodes, flags, signatures, bundle parts) decodes to an equal value that behaves identically, so a wallet killed at any point and rebuilt from its last durable state continues as if nothing had happened. Encodings are canonical: any byte string that decodes re-encodes to itself, every other byte string is refused, and nothing that decodes can later make an operation fail or panic.",
 ["crash_points", "inputs", "histories"],
 "All values, all byte strings, all crash points of a wallet persisting them.",
 "Round trips are tested for a few random keys and vectors; non-canonical encodings, torn records and continued operation after reload are not.",
 ["src/keys.rs", "src/address.rs", "src/note.rs", "src/note/commitment.rs", "src/note/nullifier.rs", "src/tree.rs", "src/value.rs", "src/bundle.rs", "src/primitives/redpallas.rs"],
 [("encodings", "to_bytes/from_bytes and serde implementations of each type")],
 ["from_bytes results", "operations after reload"])

prop("C10", "Viewing keys survive unreliable byte streams",
 "Writing a full viewing key to any stream either delivers exactly its 96-byte encoding or reports the stream's failure; reading consumes exactly 96 bytes and either yields the same key or an error, whatever partial reads and writes, interruptions, errors, end of file or corruption occur on the way. Invalid encodings are refused without consuming beyond the record or panicking.",
 ["fault_sequences", "crash_points", "inputs"],
 "All fragmentations, interruption and failure patterns of the stream, all crash points, all stored bytes.",
 "The only stream test writes to and reads from an in-memory buffer that never fails.",
 ["src/keys.rs"],
 [("stream I/O", "src/keys.rs FullViewingKey::write, read, from_bytes")],
 ["FullViewingKey::read", "FullViewingKey::write"])

prop("C11", "Results depend only on inputs and supplied entropy",
 "Building, proving and signing draw randomness only from the generator the caller supplies: the same inputs and generator stream give the same bundle, proof and signatures, and every process makes the same verifying key, whatever the thread schedule, process or time, and validation verdicts do not depend on randomness at all. With fresh entropy every bundle's randomized keys, value commitments, commitments, nullifiers of dummies, ephemeral keys and signatures are all fresh, also across actions of one bundle. When the entropy source repeats itself so that an external signature fits two unsigned spends, this is reported and not applied.",
 ["schedules", "fault_sequences", "inputs"],
 "All entropy streams (including stuck, repeating and biased ones), all thread schedules.",
 "Tests run with the OS generator on the OS scheduler and cannot observe other entropy sources or schedules.",
 ["src/builder.rs", "src/note.rs", "src/value.rs", "src/circuit.rs", "src/bundle/batch.rs", "src/primitives/redpallas.rs"],
 [("entropy plumbing", "src/builder.rs bundle(), ActionInfo::build; src/note.rs RandomSeed::random; src/value.rs ValueCommitTrapdoor::random")],
 ["bundles, proofs and signatures as bytes", "draws from the ambient entropy source"])

prop("C12", "Tree roots and witnesses agree on every node",
 "Any two parties that hold the same sequence of note commitments compute the same anchor, however they batch appends, checkpoint, roll back for reorganizations or restart, and a leaf's authentication path leads to that anchor from its true position and from no other leaf or position. A spend can be added to a builder exactly when the note belongs to the given viewing key and (unless its value is zero) its path leads to the builder's anchor. The empty tree's root and empty subtrees have their specified fixed values.",
 ["histories", "inputs", "fault_sequences"],
 "All append/checkpoint/rollback histories of all nodes, all leaves and positions.",
 "Tests compare a few vectors for small trees; rollbacks, disagreement between a full node's tree and a wallet's witness, and positions above 16 are not covered.",
 ["src/tree.rs", "src/builder.rs", "src/constants/sinsemilla.rs"],
 [("Merkle hashing", "src/tree.rs MerkleHashOrchard, EMPTY_ROOTS"), ("path verification", "src/tree.rs MerklePath::root; src/builder.rs has_matching_anchor")],
 ["Anchor bytes", "MerklePath::root", "Builder::add_spend"])

prop("C13", "Bundles have the promised shape and metadata",
 "A built bundle has exactly the number of actions its bundle type promises for the requested spends and outputs (padded with dummies of zero value that nobody's wallet sees), contains every requested spend and output exactly once and nothing else of value, and carries the requested anchor and flags. The metadata names, for each requested spend and output, the action that actually contains it, and nothing for indices that were never requested. Spends and outputs end up in uniformly shuffled, independent positions.",
 ["inputs", "configurations"],
 "All numbers and kinds of spends and outputs, all bundle types, all shuffles.",
 "One test checks the action count for one spend and output; the metadata's correctness under shuffling and padding is never checked against the bundle's content.",
 ["src/builder.rs", "src/bundle.rs"],
 [("padding and shuffling", "src/builder.rs bundle()"), ("metadata", "src/builder.rs BundleMetadata"), ("action count", "src/builder.rs BundleType::num_actions")],
 ["Bundle::actions", "BundleMetadata", "Bundle::flags", "Bundle::anchor"])

prop("C14", "Bundle type and flag rules are enforced",
 "Spends are refused when the bundle type disables spends (coinbase bundles always do) and outputs when it disables outputs, through every way of adding or building them, and a built bundle's flags say exactly what its type allows; a bundle that is not required and has no contents is not produced. The flag byte encodes exactly the two flags and any other bit is refused. A refused operation leaves the builder as it was.",
 ["inputs", "histories", "configurations"],
 "All bundle types, all sequences of accepted and refused builder calls, all flag bytes.",
 "The tests check default and coinbase types with one output each.",
 ["src/builder.rs", "src/bundle.rs"],
 [("flag checks", "src/builder.rs add_spend, add_output, bundle(), num_actions"), ("flag encoding", "src/bundle.rs Flags::to_byte, from_byte")],
 ["Builder::add_spend/add_output/build results", "Bundle::flags", "Flags::from_byte"])

prop("C15", "All holders of a key agree on what it controls",
 "Every device restored from the same seed and account, spending key or full viewing key derives the same viewing keys and the same address for each scope and diversifier index, and different seeds, coin types, accounts, scopes or indices give different ones. A viewing key recognizes exactly the addresses derived from it, reports the index and scope they were derived with, and recognizes no others; viewing-only devices derived at different levels (full or incoming) agree with each other. Only the spending key's holder can produce signatures valid under the account's validating key.",
 ["inputs", "histories", "configurations"],
 "All seeds, accounts, scopes and indices, all orders of derivation, export and import over devices.",
 "Vectors fix a few derivations at index 0; agreement between levels, scopes and large indices and the absence of false matches is not covered.",
 ["src/keys.rs", "src/zip32.rs", "src/address.rs", "src/spec.rs"],
 [("key derivation", "src/keys.rs, src/zip32.rs"), ("address ownership", "src/keys.rs scope_for_address, IncomingViewingKey::diversifier_index")],
 ["to_ivk/to_ovk/address_at bytes", "scope_for_address", "diversifier_index"])

prop("C16", "Senders, and only they, can recover what they sent",
 "The holder of the outgoing viewing key given for an output recovers exactly the note, address and memo that were sent, and the same as the recipient decrypts; with no outgoing key given, or with any other key, nobody recovers it. Outputs whose outgoing data, note ciphertext, commitments or ephemeral key were altered or made inconsistent yield nothing. Recovering one action with one key or all actions with many keys gives the same answer.",
 ["inputs", "fault_sequences"],
 "All outputs and keys, all corruptions and all malicious constructions of outgoing data.",
 "The tests recover intact vectors only.",
 ["src/note_encryption.rs", "src/bundle.rs", "src/keys.rs"],
 [("outgoing cipher key", "src/note_encryption.rs prf_ock_orchard"), ("outgoing plaintext", "src/note_encryption.rs outgoing_plaintext_bytes, extract_pk_d, extract_esk"), ("bundle recovery", "src/bundle.rs recover_outputs_with_ovks, recover_output_with_ovk")],
 ["try_output_recovery_with_ovk", "Bundle::recover_output_with_ovk", "Bundle::recover_outputs_with_ovks"])

prop("C17", "Hostile data never crashes a node or wallet",
 "Whatever bytes a peer, a file or a co-signer supplies, every operation a node or wallet performs on them (parsing, proof verification, signature checks, batch validation, digests, trial decryption, recovery, tree and path computation, spend construction) returns a verdict and never panics, aborts or loops.",
 ["inputs", "fault_sequences"],
 "All byte strings that reach a public parsing, validation, scanning or construction entry point, in every combination of valid and extreme field values.",
 "No test feeds malformed or extreme field values beyond random canonical ones.",
 ["src/bundle.rs", "src/circuit.rs", "src/note_encryption.rs", "src/keys.rs", "src/address.rs", "src/tree.rs", "src/builder.rs"],
 [("fallible parsing", "from_bytes constructors"), ("public input extraction", "src/circuit.rs to_halo2_instance"), ("plaintext parsing", "src/note_encryption.rs")],
 ["panics"],
 hook="public inputs of an instance")

prop("C18", "Digests commit to exactly the bundle's content",
 "A bundle's effects digest is the same at every stage of its life (unproven, proved, partially signed, authorized, re-parsed from the wire) and for every party, and equals the ZIP 244 digest of its actions, flags, value balance and anchor. Two bundles that differ in any effecting field, in the order or number of actions have different effects digests; authorizing data changes only the authorizing digest, which in turn binds the proof and every signature. The digests of the absent bundle have their fixed specified values.",
 ["inputs", "histories"],
 "All bundles, all stages and orders of authorization, all single changes to any field.",
 "No test computes a digest of a real bundle and compares it with the specification or across stages.",
 ["src/bundle/commitments.rs", "src/bundle.rs"],
 [("digest construction", "src/bundle/commitments.rs"), ("stage transitions", "src/bundle.rs map_authorization, try_map_authorization, try_map_value_balance")],
 ["Bundle::commitment", "Bundle::authorizing_commitment"])

# Stated, but not claimed (see MANIFEST.json not_applicable).
prop("C19", "An action statement can be proved exactly when it is true",
 "A prover who chooses every private and public input freely can get a proof accepted exactly when the action statement is true of them: the old note's commitment opens to its claimed contents and lies in the anchor's tree (unless its value is zero), its address belongs to the claimed keys, the nullifier, randomized key, net value commitment and new note commitment are the ones prescribed for these inputs, the new note takes the revealed nullifier as its identifier, and disabled spends or outputs are worth nothing. In a proof of several actions, one false statement makes the whole unacceptable. A custom builder can make an action from a spend and a new note if and only if the new note's identifier is the spent note's nullifier.",
 ["inputs", "fault_sequences"], "All private and public inputs, honest or chosen by a lying prover in concert; all combinations of true and false actions in one proof.",
 "The tests prove honest actions and compare the constraint system with a pinned description; no test has a prover lie about a private input.",
 ["src/circuit.rs", "src/circuit/gadget.rs", "src/circuit/note_commit.rs", "src/circuit/commit_ivk.rs", "src/builder.rs"],
 [("constraint system and synthesis", "src/circuit.rs"), ("custom builders", "src/circuit.rs Circuit::from_action_context"), ("public inputs", "src/circuit.rs Instance")],
 ["constraint satisfaction", "Proof::create", "Proof::verify", "Circuit::from_action_context"],
 hook="replacing a private input of a circuit, public inputs of an instance")
prop("C20", "Published bundles give an observer nothing to go by",
 "Bundles with the same public effects (number of actions, flags, balance, anchor) look alike to anyone without the keys, whatever is spent and created, by whom and for whom, and whichever parts are dummies: nothing published repeats from one action or bundle to the next, contains any part of a key, note, value, address or memo, or opens with a key, trapdoor or seed that could be guessed or read off the bundle, and no bit of any published field is biased by the request.",
 ["inputs", "histories"], "All pairs of requests with equal public effects, all bundles made for them over time, and every observer in the simulator's battery.",
 "It is a statement about many bundles together; the tests look at single ones, for consistency only.",
 ["src/builder.rs", "src/note_encryption.rs", "src/value.rs", "src/note.rs"],
 [("blinding", "src/builder.rs ActionInfo"), ("dummy spends and outputs", "src/builder.rs SpendInfo::dummy, OutputInfo::dummy"), ("outputs nobody shall recover", "src/note_encryption.rs derive_outgoing_cipher_key without ovk")], ["published actions, signatures and proofs"])
prop("C23", "Reported memory use is the memory held",
 "For every bundle and scanning key kept in memory, whatever its size and origin (received from a peer, built by a wallet, copied, converted to another amount type), the reported dynamic memory usage equals the heap memory it holds and lies within the reported bounds, and does not drift while it is kept; so a node that accounts by it stays within its budget under every order of arrival, duplication, eviction, expiry and restart.",
 ["inputs", "histories", "fault_sequences"], "All bundles (numbers of actions, proof sizes, spare capacities), prepared keys, and histories of a memory-limited pool.",
 "No test compares a reported usage with memory actually held.",
 ["src/bundle.rs", "src/action.rs", "src/circuit.rs", "src/keys.rs", "src/note_encryption.rs", "src/spec.rs"],
 [("memory accounting", "impl DynamicUsage for Bundle, Action, Proof, PreparedIncomingViewingKey, OrchardDomain, PreparedNonZeroScalar")], ["DynamicUsage::dynamic_usage", "DynamicUsage::dynamic_usage_bounds", "bytes freed on release"])
prop("C24", "Values compare by what they mean",
 "Two values of the same kind (spending, viewing and validating keys, addresses, diversifiers, notes, identifiers, nullifiers, commitments, tree nodes, anchors, amounts, flags, verification keys) are equal exactly when their encodings are, by variable-time and constant-time comparison alike and whatever they came from (derived, parsed, computed); the orderings of keys, nullifiers, identifiers and tree nodes are total, consistent with equality and the same for everyone, and a constant-time choice yields the chosen one. So replicas that index such values and are told of them in any order, repeatedly and through restarts, hold the same index and find what they hold.",
 ["inputs", "histories", "fault_sequences"], "All pairs and triples of values of a kind, of any origin, however similar; all orders of insertion and restarts.",
 "Tests compare a few values for equality and never differing ones that share most of their parts, and no test uses the orderings.",
 ["src/keys.rs", "src/note.rs", "src/note/nullifier.rs", "src/note/commitment.rs", "src/address.rs", "src/tree.rs", "src/value.rs", "src/bundle.rs", "src/primitives/redpallas.rs"],
 [("comparisons", "impl PartialEq, ConstantTimeEq, Ord, ConditionallySelectable for the public types")], ["==", "ct_eq", "cmp", "conditional_select"])
prop("C25", "A bundle's stages change nothing else",
 "Moving a bundle or action from one authorization stage to another, converting its amount type, copying it or taking it apart and putting it together changes what the step is about and nothing else: every action keeps its place and all its fields, flags, anchor, balance and digest stay; the step is applied to every spend once and in order with the bundle's own authorization and then to that authorization once; a step that fails at any spend or at the end is reported with its own error. Detours that change nothing leave a bundle that signs and finishes as without them.",
 ["inputs", "histories", "fault_sequences"], "All bundles, sequences of stages, points of failure and retries.",
 "The tests apply one successful proving and signing step to small bundles.",
 ["src/bundle.rs", "src/action.rs", "src/builder.rs"],
 [("transitions", "Bundle::map_authorization, try_map_authorization, try_map_value_balance, from_parts; Action::map, try_map, from_parts")], ["bundle parts", "what closures are called with", "errors returned"])
prop("C21", "Secret-dependent timing is not observable",
 "Operations on spending keys, viewing keys and note secrets take time and access memory independently of the secrets where the API promises constant time.",
 ["inputs"], "All secrets.", "Tests do not measure time.",
 ["src/keys.rs", "src/note.rs", "src/zip32.rs"], [("constant-time comparison and selection", "subtle implementations")], ["timing"])
prop("C22", "Precomputed constants equal their definitions",
 "Every fixed generator, fixed-base window table and Sinsemilla constant equals the value its definition prescribes.",
 ["configurations"], "All precomputed entries: one finite table.", "The existing tests recompute the tables; there is no quantifier left for them to miss.",
 ["src/constants/"], [("tables", "src/constants/fixed_bases/*.rs, src/constants/sinsemilla.rs")], ["constants"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
