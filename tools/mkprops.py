#!/usr/bin/env python3
"""Generates properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
H = "cfg(verif_hooks): in-crate access to pub(crate) items"

prop("C01", "Bounded integer arithmetic is exact and never outgrows its bound",
 "Every arithmetic operation, negation, absolute value, selection and conversion on the library's bounded signed and unsigned integers returns exactly the mathematical integer result. The declared bit bound of every value it returns covers its magnitude. An operation whose result may not be representable refuses (error, empty option or panic) and never wraps around silently.",
 ["inputs"], "all signed/unsigned values, bounds and operand widths, including both ends of every range",
 "The unit tests check a dozen hand-picked operand pairs on small widths; wrap-around, sign and bound slips live at boundary values and bound combinations they never visit.",
 ["src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/secret_unsigned.rs", "src/uint/public_uint.rs", "src/uint/traits.rs"],
 [("bound tracking in add/sub/mul/neg/mul_wide", "src/uint/secret_signed.rs"), ("checked constructors", "src/uint/public_signed.rs")],
 [("bound", "declared maximum number of magnitude bits", "SecretSigned/PublicSigned/SecretUnsigned"), ("value", "two's complement representation", "SecretSigned/PublicSigned")],
 ["return values of every operation compared with an independent big-integer model"], H)

prop("C02", "Ranges: predicates, random sampling and hash-to-range stay in range",
 "A range predicate accepts an integer exactly when it lies in the stated interval (-2^(e-1), 2^(e-1)], or its scaled form. Every sampler (from an RNG or from a hash output stream) only returns values inside its stated interval (residues below the modulus, units of the ring, non-residues with the requested Jacobi symbol), reaches all parts of that interval, and the hash-stream ones are a deterministic function of the stream.",
 ["inputs"], "all exponents, scales, moduli, RNG outputs and hash streams",
 "The tests probe one exponent and a few random draws, so an off-by-one interval end, a biased or truncated sampler or a rarely produced out-of-range residue goes unseen.",
 ["src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/traits.rs", "src/paillier/rsa.rs", "src/curve/arithmetic.rs"],
 [("is_in_exponent_range / ensure_exponent_range / random_in_exponent_range", "src/uint/secret_signed.rs"), ("from_xof_reader_bounded / invertible_residue_from_xof_reader / nonsquare sampling", "src/uint/traits.rs, src/paillier/rsa.rs")],
 observe=["values returned by every sampler, fed with adversarial (all-ones, all-zero, boundary) byte streams"], hook=H)

prop("C03", "Wire formats round-trip, and hostile encodings are rejected, not absorbed",
 "Every value the library serializes deserializes to an equal value in binary and human-readable formats. For the types that peers exchange, decoding arbitrary bytes or ill-formed structures either fails with an error or yields a value that satisfies all invariants of its type; it never panics and never yields an out-of-bound integer, a zero or even modulus, a non-canonical scalar or an off-curve point.",
 ["inputs"], "all values of wire types and stored key material (key shares, changes, aux data), and all byte strings / structure mutations",
 "Tests round-trip one healthy value of a few types in one format; the space of hostile encodings is never visited.",
 ["src/uint/public_signed.rs", "src/uint/public_uint.rs", "src/curve/arithmetic.rs", "src/paillier/keys.rs", "src/paillier/ring_pedersen.rs", "src/tools/bitvec.rs", "src/tools/secret.rs", "src/entities/full.rs", "src/entities/threshold.rs"],
 [("PackedSigned try_from", "src/uint/public_signed.rs"), ("Scalar/Point try_from_be_bytes", "src/curve/arithmetic.rs"), ("serde impls of wire key types", "src/paillier")],
 observe=["result of deserialize on mutated JSON and CBOR encodings"], hook=H)

prop("C04", "Scalars and curve points form the right group and convert exactly",
 "Scalar arithmetic is arithmetic modulo the curve order, point arithmetic is the curve group, and multiplying by a scalar is a homomorphism between them, for plain and secret-wrapped operands alike. Conversions between scalars, bytes, hash outputs and big integers are exact modulo the order and canonical, and splitting a secret into n shares always gives n shares that sum to it.",
 ["inputs"], "all scalars, points, byte strings, signed integers (including negative and larger than the order) and share counts",
 "One round-trip test on random bytes; reduction of negative/oversized integers, zero, order-1 and identity are not covered, nor is agreement of secret and plain operators.",
 ["src/curve/arithmetic.rs", "src/params/conversion.rs", "src/tools/secret.rs"],
 [("scalar <-> integer conversion", "src/params/conversion.rs"), ("secret_split", "src/curve/arithmetic.rs"), ("operator impls on Secret<Scalar>", "src/tools/secret.rs")],
 observe=["results compared with an independent modular-arithmetic model over integers"], hook=H)

prop("C05", "A returned signature verifies, is low-s, and recovers the signing key",
 "Assembling a recoverable signature from its two scalars returns a signature exactly when the scalars are a valid ECDSA signature of the message under the given key. A returned signature has a low s value, verifies under an independent ECDSA verifier, and its recovery identifier recovers exactly that key.",
 ["inputs"], "all nonce/sigma pairs, high and low s, odd and even nonce points, keys and messages",
 "The only test is one protocol run, which never reaches invalid pairs, all four recovery identifiers, or the reduced x-coordinate case.",
 ["src/curve/ecdsa.rs"], [("RecoverableSignature::from_scalars", "src/curve/ecdsa.rs")],
 observe=["RecoverableSignature::to_backend, ECDSA verify and recover"], hook=H)

prop("C06", "BIP32 child derivation agrees between key shares and the public key",
 "For every non-hardened derivation path, deriving a threshold key share and then reading its verifying key gives the same child key as deriving the verifying key directly. All share holders derive the same child key, the derived shares still reconstruct the matching secret, and every path is followed step by step as an independent BIP32 implementation does, starting from the key and its initial chain code; hardened steps are refused.",
 ["inputs", "configurations"], "all paths, key sets, thresholds and share subsets",
 "One test runs one path; it does not compare against an independent derivation nor try deep, empty, extreme-index or hardened paths.",
 ["src/curve/bip32.rs", "src/entities/threshold.rs"],
 [("derive_tweaks / apply_tweaks_public / apply_tweaks_private", "src/curve/bip32.rs"), ("ThresholdKeyShare::derive_bip32", "src/entities/threshold.rs")],
 observe=["derived verifying keys and shares"], hook=H)

prop("C07", "Paillier: decrypt inverts encrypt, and ciphertext algebra is homomorphic",
 "For every key pair, signed plaintext in range and unit randomizer, encryption equals (1+N)^m r^N mod N^2, decryption returns the plaintext in the symmetric range around zero, and the randomizer is recovered exactly. Adding, subtracting, negating, scaling by signed integers and re-randomizing ciphertexts acts on the plaintexts as the same integer operation modulo N, and on the randomizers accordingly. Ciphertexts and secret keys that belong to different public keys are never combined, and different public keys are unequal.",
 ["inputs"], "all keys, plaintexts (negative, zero, extreme), exponents, randomizers and operation sequences",
 "The tests compute four single operations on one random key; extremes, chains of operations, randomizer tracking, and independent ciphertext computation are missing.",
 ["src/paillier/encryption.rs", "src/paillier/keys.rs", "src/paillier/rsa.rs"],
 [("Ciphertext::new_with_randomizer / decrypt / derive_randomizer", "src/paillier/encryption.rs"), ("homomorphic operators", "src/paillier/encryption.rs")],
 observe=["ciphertext wire values, decrypted plaintexts and randomizers vs. an independent big-integer Paillier"], hook=H)

prop("C08", "Generated keys and parameters always meet the scheme's arithmetic preconditions",
 "Every generated Paillier key is a product of two distinct primes congruent to 3 mod 4 of exactly the configured size, with a modulus of the configured size coprime to its totient, and every generated ring-Pedersen setup is a product of two distinct safe primes with the base t a unit square and s = t^lambda. Public, secret, wire and precomputed forms of one key describe the same key.",
 ["inputs"], "all RNG outputs and parameter sets",
 "Key generation is random; a test samples one key and checks none of the arithmetic preconditions on which proof soundness depends.",
 ["src/paillier/rsa.rs", "src/paillier/keys.rs", "src/paillier/ring_pedersen.rs", "src/paillier/params.rs"],
 [("SecretPrimesWire::random_paillier_blum / random_safe", "src/paillier/rsa.rs"), ("RPParams::random_with_secret", "src/paillier/ring_pedersen.rs")],
 observe=["generated primes, totients, moduli, s, t, lambda"], hook=H)

prop("C09", "CRT shortcuts, square roots and commitments equal plain modular arithmetic",
 "Splitting residues into prime components, joining them, extracting square roots, computing with the secret totient and inverses, and ring-Pedersen commitments with signed exponents give exactly what plain arithmetic modulo N gives. A square root is reported exactly for quadratic residues, squares back to its input and is itself a residue; a quartic root exists for exactly one sign/twist of every unit.",
 ["inputs"], "all moduli, residues (residue / non-residue in each factor), signed and negative exponents",
 "No test compares the CRT path with direct exponentiation over the four residue classes, negative exponents or edge residues.",
 ["src/paillier/rsa.rs", "src/paillier/keys.rs", "src/paillier/ring_pedersen.rs", "src/uint/traits.rs"],
 [("rns_split / rns_join / sqrt", "src/paillier/keys.rs"), ("RPParams::commit*", "src/paillier/ring_pedersen.rs"), ("Exponentiable::pow*", "src/uint/traits.rs")],
 observe=["returned residues vs. an independent big-integer model"], hook=H)

prop("C10", "Honest zero-knowledge proofs always verify",
 "For every one of the library's zero-knowledge proofs, a proof produced from a true statement with an in-range witness verifies, for every witness including the extremes of the permitted ranges, every key set, every context and every participant count, before and after a serialization round trip.",
 ["inputs"], "all valid witnesses, keys, setups, contexts, RNG outputs",
 "Each proof has one test with one random witness (and the official build does not even run them); failures at range ends or of low probability per run are not seen.",
 ["src/zk"], [("prove/verify pairs", "src/zk/*.rs")],
 observe=["verify() verdict for proofs over boundary and random witnesses"], hook=H)

prop("C11", "Proofs of false statements and tampered proofs never verify",
 "If any public input of the statement is not what the witness implies, or any component of a proof (commitment, response or challenge) or of the statement is altered after proving, verification fails. (Replacing a response by another valid response to the same challenge, such as the other sign of a root, or a true statement by an equivalent one, is not an alteration in this sense.)",
 ["inputs"], "every public input, every proof component, many alterations of each, every proof type",
 "The tests contain one or two negative cases overall; a dropped verification equation is invisible to them because honest proofs still pass.",
 ["src/zk"], [("verification equations", "src/zk/*.rs")],
 observe=["verify() verdict on proofs with one falsified relation or one altered component"], hook=H)

prop("C12", "Out-of-range witnesses are rejected even if every equation holds",
 "A prover who knows a witness that satisfies all algebraic relations but lies outside the permitted range (plus the scheme's stated slack) cannot produce a verifying proof by running the proving algorithm, and a proof whose responses lie outside the permitted ranges never verifies even if it satisfies all verification equations. The provers refuse every witness outside of the declared range, also within the slack.",
 ["inputs"], "every ranged witness and response of every range proof, just outside and far outside the range, positive and negative",
 "Honest tests always use in-range witnesses, so removing or loosening a range check changes nothing they observe.",
 ["src/zk/enc_elg.rs", "src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/fac.rs", "src/params/traits.rs"],
 [("is_in_exponent_range checks in verify", "src/zk/*.rs"), ("bounds L, L', EPS", "src/params/traits.rs")],
 observe=["verify() verdict on proofs made by an independent reference prover with out-of-range witnesses"], hook=H)

prop("C13", "A proof is bound to its statement, verifier setup, session and prover",
 "A valid proof stops verifying as soon as the session identifier, prover identity or any other context value, the verifier's setup parameters or any public input is replaced by a different one (the number of parties in the decryption proof, which only sizes a range, excepted). This holds in particular for swapped inputs of equal type and for a context made of the same bytes divided differently.",
 ["inputs"], "every context component, setup component and statement component, every proof type",
 "A missing value in the challenge hash does not affect any honest run; tests never replay a proof elsewhere.",
 ["src/zk", "src/tools/hashing.rs", "src/entities/internal.rs"],
 [("Fiat-Shamir challenge over statement, setup, commitments and aux", "src/zk/*.rs"), ("domain separation and length framing", "src/tools/hashing.rs")],
 observe=["verify() verdict after replacing one context item; challenge values for differing inputs"], hook=H)

prop("C14", "Malformed or degenerate proofs are rejected with a verdict, not a crash",
 "Verification of any well-typed proof and statement, however degenerate (missing, truncated or surplus repetitions, zero or non-invertible group elements, identity points, extreme or negative integers), returns a verdict without panicking, and the verdict is negative unless the proof is a complete one of the prescribed shape.",
 ["inputs"], "all well-typed proof and statement values a peer can send",
 "Tests only verify proofs from the honest prover; empty proof vectors and non-invertible values are never tried.",
 ["src/zk", "src/paillier", "src/uint/traits.rs"],
 [("length checks on repeated proofs", "src/zk/prm.rs, mod_.rs, dec.rs, aff_g_star.rs"), ("handling of non-invertible residues", "src/uint/traits.rs, src/paillier/encryption.rs")],
 observe=["verify() verdict or panic on degenerate proofs"], hook=H)

prop("C15", "Transcript hashing is deterministic, injective and domain separated",
 "Hashing the same values in the same order always gives the same output of the requested length. Different sequences of values of the same types, the same bytes divided differently, different tags, different lengths, nesting or presence of optional parts, and scheme parameters that differ in any constant give different outputs, and no two kinds of proof share a tag.",
 ["inputs"], "all value sequences and splits, tags, parameter sets",
 "There is no test of the hashing layer's framing; honest runs agree on any hash, even one that ignores inputs.",
 ["src/tools/hashing.rs", "src/entities/internal.rs", "src/params/traits.rs", "src/params/conversion.rs", "src/protocols/interactive_signing.rs"],
 [("Chain / Hasher / length prefixing", "src/tools/hashing.rs"), ("Sid::new, Epid::new, chain_scheme_params", "src/entities/internal.rs, src/protocols/interactive_signing.rs, src/params")],
 observe=["hash outputs collected in a collision table"], hook=H)

prop("C16", "Secrets never show up in debug output or linger in freed memory",
 "Debug-formatting any object that holds secret material (keys, shares, primes, randomizers, proof secrets, protocol state) never prints that material. Memory that held secret-wrapped values is wiped before it is released.",
 ["inputs", "histories"], "all secret-holding types, formatting flags and values; every release of secret storage",
 "One test formats one key type once; memory contents after release are not observable from a unit test.",
 ["src/tools/secret.rs", "src/uint/secret_signed.rs", "src/uint/secret_unsigned.rs", "src/paillier", "src/entities", "src/protocols"],
 [("Secret wrapper with redacted Debug and zeroize on drop", "src/tools/secret.rs")],
 observe=["formatted text searched for encodings of the secret", "contents of heap blocks at the moment they are freed"], hook=H)

prop("C17", "Operations on secrets do not branch or index memory on secret values",
 "Arithmetic, comparison, selection, conversion and range checking of secret-wrapped integers and scalars, and modular exponentiation with secret exponents, executes, in the library's own code, no conditional branch and no memory access whose target depends on the secret value: for the same public inputs (bounds, moduli, public operands), every secret gives the same control flow and the same accesses. The primitives of the big-integer and curve dependencies are taken as given, and rejection sampling is not covered.",
 ["inputs"], "all secret values, for each secret-typed operation",
 "Functional tests cannot see timing behaviour; the repository's statistical timing example is manual and covers one operation.",
 ["src/uint/secret_signed.rs", "src/uint/secret_unsigned.rs", "src/tools/secret.rs", "src/params/conversion.rs", "src/uint/traits.rs"],
 [("subtle-based conditional selection", "src/uint/secret_signed.rs"), ("bounded-exponent constant-time pow", "src/uint/traits.rs")],
 observe=["traces of control-flow edges and accessed addresses, compared between secrets"], hook=H)

prop("C18", "Key shares, share updates and aux data stay mutually consistent",
 "A set of key shares made together has secret shares that sum to the group secret, public shares that match the secret ones, and one common verifying key seen by every party. Applying share changes whose sum is zero keeps that key and changes the shares, and mismatched owners, parties or updates are refused. Auxiliary data restricted to a subset equals the original on that subset.",
 ["inputs", "histories"], "all party sets, keys, and sequences of updates",
 "The tests run one 3-party case; sequences of updates, other party counts and mismatched inputs are not tried.",
 ["src/entities/full.rs"], [("KeyShare::new_centralized / update / verifying_key", "src/entities/full.rs"), ("AuxInfo::subset", "src/entities/full.rs")],
 observe=["public API of KeyShare / KeyShareChange / AuxInfo"], hook="manul stand-in + " + H)

prop("C19", "Any threshold-sized subset of threshold shares reconstructs the same key",
 "For every threshold t of n holders, every set of t holders converts its threshold shares into additive shares that sum to the group secret and match their public shares, with the same verifying key, and every larger set interpolates to the same key. Fewer than t shares do not determine the key: every smaller set is consistent with any other secret. Converting between the two kinds of share preserves the key.",
 ["inputs", "configurations"], "all n, t, subsets and evaluation points",
 "A test tries one threshold and one subset; interpolation slips for other subsets, orders and sizes go unseen.",
 ["src/tools/sss.rs", "src/entities/threshold.rs"],
 [("Polynomial / PublicPolynomial / interpolation coefficients", "src/tools/sss.rs"), ("ThresholdKeyShare conversions", "src/entities/threshold.rs")],
 observe=["public API of ThresholdKeyShare; interpolation compared with an independent Lagrange model"], hook="manul stand-in + " + H)

prop("C20", "Key generation ends with all parties agreeing on one consistent key",
 "For every party count, message delivery order and session, a run of key generation among honest parties terminates with a result at every party. The results agree on the verifying key and all public shares, and each party's secret share matches its public share.",
 ["schedules", "inputs", "configurations"], "all delivery orders, party sets, session randomness",
 "The test runs 3 parties once with one delivery order.",
 ["src/protocols/key_init.rs"], [("KeyInit rounds 1-3", "src/protocols/key_init.rs")],
 observe=["final results of a simulated network with controlled delivery order"], hook="manul stand-in")

prop("C21", "Refresh and aux generation keep the key, renew shares, and give usable aux data",
 "After an honest run of auxiliary-data generation or key refresh, all parties hold the same public auxiliary data, each party's secret key matches its public one and is freshly generated. Share changes sum to zero and match their public counterparts, so refreshed shares keep the verifying key while every share changes, over any number of refreshes.",
 ["schedules", "inputs", "histories"], "all delivery orders, party sets, repeated refreshes",
 "The tests run each protocol once for 3 parties.",
 ["src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs"], [("KeyRefresh rounds 1-3", "src/protocols/key_refresh.rs"), ("AuxGen rounds 1-3", "src/protocols/aux_gen.rs")],
 observe=["final results of a simulated network, applied to key shares"], hook="manul stand-in")

prop("C22", "Signing gives every party the same valid signature",
 "For every message, signer set and delivery order, and for shares that come from key generation, refresh, resharing, child derivation or a trusted dealer, an honest signing run ends with every signer holding the same recoverable signature. It verifies for exactly that message under the group key.",
 ["schedules", "inputs", "histories"], "all messages (including 0 and values above the curve order), signer sets, share origins, delivery orders",
 "One test signs one message with 3 dealer-made shares.",
 ["src/protocols/interactive_signing.rs", "src/curve/ecdsa.rs"], [("presigning rounds 1-3, signing round 4", "src/protocols/interactive_signing.rs")],
 observe=["final results of a simulated network, checked with an independent ECDSA verifier"], hook="manul stand-in")

prop("C23", "Resharing moves the same key to new holders and thresholds",
 "For every old and new holder set (disjoint, overlapping or equal), old and new threshold, and sufficient set of participating old holders, an honest resharing run gives each new holder a share such that every new-threshold-sized subset reconstructs the unchanged key; old-only holders obtain no share.",
 ["schedules", "inputs", "configurations"], "all holder sets, thresholds, participating subsets, delivery orders",
 "Tests run one or two fixed configurations.",
 ["src/protocols/key_resharing.rs", "src/entities/threshold.rs", "src/tools/sss.rs"], [("KeyResharing round 1", "src/protocols/key_resharing.rs")],
 observe=["final results of a simulated network"], hook="manul stand-in")

prop("C24", "A deviating party is caught and blamed with evidence that verifies",
 "If one party deviates from a protocol by altering any field of any message it sends, then no honest party ends with a result that differs from the other honest parties' or is inconsistent with the group key. A receiver refuses a message in which a proof, or a value that the sender has committed to or proves, was altered, and one that carries a part which the round does not use. Every honest party that rejects a message attributes it to the deviating party, and the evidence it produces is accepted by an independent verifier who knows only the public session data.",
 ["fault_sequences", "inputs"], "every field of every message of every round, many alterations of each",
 "The misbehaviour tests cover one alteration for each declared error; all other alterations are untested.",
 ["src/protocols"], [("receive_message checks", "src/protocols/*.rs"), ("verify_messages_constitute_error", "src/protocols/*.rs")],
 observe=["per-party outcome and evidence verification verdicts under message mutation"], hook="manul stand-in")

prop("C25", "Evidence against an honest party never verifies",
 "Given the genuine messages of an honest party in a session, no claim of misbehaviour of any kind, with any attached accusation data, is accepted by the evidence verifier against that party, and judging a claim, also over changed messages, never crashes.",
 ["inputs", "histories"], "every kind of claim, every attached party index or value, every honest transcript",
 "The tests only verify evidence against parties that did misbehave, so an evidence check that accepts everything passes them.",
 ["src/protocols"], [("verify_messages_constitute_error / verify_*_is_invalid", "src/protocols/*.rs")],
 observe=["evidence verification verdicts for fabricated claims over honest transcripts"], hook="manul stand-in")

prop("C26", "No peer message can crash an honest party or leave the fault unattributed",
 "Whatever well-formed or malformed message a peer sends in any round, an honest party never panics, and never fails with an internal error that names nobody: it either continues or reports the sender.",
 ["fault_sequences", "inputs"], "every message of every round, type-preserving and type-breaking mutations, wrong lengths, zero, even and non-invertible values",
 "The misbehaviour tests send a handful of invalid messages; wrong-length vectors, degenerate moduli and points are not among them.",
 ["src/protocols", "src/zk", "src/paillier", "src/tools/bitvec.rs", "src/tools/sss.rs"], [("input validation in receive_message", "src/protocols/*.rs")],
 observe=["panics and local errors of honest parties under message mutation"], hook="manul stand-in")

prop("C27", "Messages of one session or party are useless in or to another",
 "If a message, or any part of it, is replaced by the corresponding one from a session with different shared randomness, participants, keys, auxiliary data or signed message, or from another party of the same session, and differs from it, then no honest receiver finishes the protocol: it refuses the sender of the replayed message, or never completes the session; the opening message of a signer from such a session (unless only the message differs) is refused at once. This holds for every protocol with proofs and commitments (not key resharing). Session identifiers differ for different participant sets, shared randomness and scheme parameters.",
 ["histories", "fault_sequences"], "pairs of sessions differing in one identifier; every round",
 "No test replays messages across sessions or parties.",
 ["src/protocols", "src/entities/internal.rs", "src/zk"], [("Sid / Epid in every proof and commitment", "src/protocols/*.rs")],
 observe=["acceptance of replayed messages in a simulated network"], hook="manul stand-in")

prop("C28", "Inputs that do not fit the party or each other are refused up front",
 "Every protocol entry point, the dealer of threshold shares and the share conversions refuse with an error, without a panic and before any message is sent, inputs that cannot lead to a usable result: a participant set without the party itself; a key share and aux data of different owners or party sets, or run by another party; a resharing without a role, as an old holder with another party's share, as a new holder outside the new set, or with a threshold of zero or larger than the number of new holders (likewise when dealing zero thresholds); a conversion of a threshold share to a set that is not exactly threshold many holders including the owner; a key share change of another owner or party set; a subset of aux data that is not part of its parties or lacks the owner. All fitting inputs are accepted.",
 ["inputs"], "participant sets of every size, owners, thresholds, roles; number and string ids",
 "The tests only start protocols with fitting inputs.",
 ["src/protocols", "src/entities/threshold.rs"], [("input checks in new and make_round", "src/protocols/*.rs"), ("ThresholdKeyShare::new_centralized, to_key_share, from_key_share", "src/entities/threshold.rs")],
 observe=["verdict (accepted / error / panic) of constructors and entry points"], hook="manul stand-in")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
