# One entry per claimed property; the last file's main() is the workload.
HOOK_COMMITS = ["80e5cde"]
NOT_APPLICABLE = {}
B = ["common.rs", "bigref.rs"]
U = B + ["util.rs"]
Z = U + ["ecref.rs", "zkfix.rs"]
S = U + ["ecref.rs", "zkfix.rs", "session.rs", "protofix.rs"]
A = S + ["rigs.rs", "mutate.rs", "meaning.rs", "attack.rs"]

CHECKS = {
    "C01": {
        "bin": "c01", "mode": "prim", "files": B + ["c01.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow execution against an independent big-integer reference",
        "note": "Every operator, overload and constructor in five widths on boundary-heavy operands; exact value and bound oracle on each result. Trusts the harness's schoolbook integers.",
    },
    "C02": {
        "bin": "c02", "mode": "prim", "files": U + ["c02.rs"], "level": "exploration",
        "technique": "runtime monitor: range/coverage/determinism oracles on every sampler under honest and hostile randomness",
        "note": "Range predicates at every exponent boundary of four widths; each sampler observed under scripted and honest randomness with exact membership, bucket coverage and determinism oracles; small ranges exhaustively.",
    },
    "C03": {
        "bin": "c03", "mode": "full", "files": S + ["zkforge.rs", "c03.rs"], "level": "exploration",
        "technique": "runtime monitor: round-trip and decode-invariant oracles under structure- and byte-level encoding fuzzing",
        "note": "51 types (integers to proofs, key shares, share changes, aux data, polynomials) of two parameter sets in CBOR and JSON: round trips over boundary values, then hostile trees, bytes and text; anything that decodes must satisfy the type's invariants and be exactly what the bytes say.",
    },
    "C04": {
        "bin": "c04", "mode": "prim", "files": U + ["ecref.rs", "c04.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow execution against an independent field/curve reference",
        "note": "All scalar, secret-scalar, point and conversion operators in every overload on boundary-heavy operands, tiny and secp256k1 curves; exact oracle. Trusts the harness's affine curve code.",
    },
    "C05": {
        "bin": "c05", "mode": "prim", "files": B + ["ecref.rs", "c05.rs"], "level": "exploration",
        "technique": "runtime monitor: exact ECDSA validity and key-recovery oracle on every returned signature",
        "note": "Valid and falsified signatures over both curves, all four recovery identifiers including abscissas above the order; validity decided by the harness's own ECDSA equation.",
    },
    "C06": {
        "bin": "c06", "mode": "full", "files": S + ["hashref.rs", "c06.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow execution against an independent BIP32 (own SHA-2, HMAC, curve arithmetic)",
        "note": "Random keys, thresholds, holders, share origins; paths from empty to 255 levels with extreme indices; hardened steps must be refused; derived shares of every threshold-sized subset interpolated.",
    },
    "C07": {
        "bin": "c07", "mode": "prim", "files": U + ["c07.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow execution against big-integer Paillier after every operation",
        "note": "Every encryption variant, decryption, randomizer extraction/masking, and random homomorphic operation histories with plaintext, randomizer and exact ciphertext tracked; 8- to 1024-bit primes.",
    },
    "C08": {
        "bin": "c08", "mode": "prim", "files": U + ["c08.rs"], "level": "exploration",
        "technique": "runtime monitor: arithmetic invariants asserted on every generated key, setup and parameter set",
        "note": "Hundreds of generated keys and setups (16- to 1024-bit primes, honest and degenerate RNGs) checked against independent primality and arithmetic; parameter inequalities for all shipped sets. Production-size safe primes are not generated (minutes each).",
    },
    "C09": {
        "bin": "c09", "mode": "prim", "files": U + ["c09.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow execution against plain modular arithmetic",
        "note": "Split/join/square and fourth roots over all residue classes (exhaustive residues of 8-bit-prime keys), commitments and exponentiations with every exponent type; 8- to 1024-bit primes.",
    },
    "C10": {
        "bin": "c10", "mode": "prim", "files": Z + ["c10.rs"], "level": "exploration",
        "technique": "runtime monitor: completeness oracle on every prover run",
        "note": "All nine proofs, every witness extreme, tens of key sets, contexts of different shapes, 1 to 2^20 parties, CBOR round trips; production parameters sampled.",
    },
    "C11": {
        "bin": "c11", "mode": "prim", "files": Z + ["zkforge.rs", "zkeq.rs", "zkweak.rs", "c11.rs"], "level": "exploration",
        "technique": "runtime monitor: soundness oracle on verifier verdicts for falsified statements and tampered proofs",
        "note": "Every public input falsified before and after proving, every proof component altered in every repetition, responses shifted so that exactly one equation of one repetition breaks, simulated transcripts, forged moduli.",
    },
    "C12": {
        "bin": "c12", "mode": "prim", "files": Z + ["zkforge.rs", "c12.rs"], "level": "exploration",
        "technique": "runtime monitor: range oracle on verifier verdicts for equation-preserving shifted responses",
        "note": "Responses of real proofs moved by multiples of known group orders to both sides of every bound (every repetition, both signs, 12 party counts), with in-range shifts as positive control; real prover with out-of-range witnesses.",
    },
    "C13": {
        "bin": "c13", "mode": "prim", "files": Z + ["zkforge.rs", "zkeq.rs", "c13.rs"], "level": "exploration",
        "technique": "runtime monitor: binding oracle on verifier verdicts for equation-preserving replacements",
        "note": "For every value a challenge must cover (commitments, keys, setup parts, statement, context) a probe that keeps all equations (checked independently) and changes only that value; contexts reshaped, swapped and divided differently.",
    },
    "C14": {
        "bin": "c14", "mode": "prim", "files": Z + ["zkforge.rs", "zkeq.rs", "zkweak.rs", "c14.rs"], "level": "exploration",
        "technique": "runtime monitor: panic monitor and independent completeness oracle on verifier verdicts for degenerate proofs",
        "note": "All lengths of every repeated part jointly and apart, every group of ring elements set to zero/non-units, extremes in every field and statement part, replaced moduli; run over the real and an input-ignoring digest so that no challenge check hides the others.",
    },
    "C15": {
        "bin": "c15", "mode": "prim", "files": Z + ["c15.rs"], "level": "exploration",
        "technique": "runtime monitor: collision table over hash outputs and recorded hash-input streams",
        "note": "All divisions of short byte strings, tens of thousands of near-colliding structured values, 27 parameter sets differing in one constant, library types and real proof transcripts; both real outputs and the exact recorded streams must be collision-free.",
    },
    "C16": {
        "bin": "c16", "mode": "full", "files": S + ["c16e.rs", "c16.rs"], "level": "exploration",
        "technique": "runtime monitor: secret-pattern search over debug output and over every heap block as it is released (instrumented allocator)",
        "note": "All secret-holding types in nine debug flavours; every operation on them under an allocator that inspects released blocks for the words of all inputs, results and proof masks; whole sessions of all five protocols (secrets computed from a first run with the same randomness), round states printed before each delivery. Positive controls in each run. Stack copies are out of reach.",
    },
    "C17": {
        "bin": "c17", "mode": "prim", "files": Z + ["c17.rs"], "level": "exploration", "profile": "ct", "deps": "covrt", "wrapper": "rustc-cov",
        "technique": "runtime monitor: trace-equality (non-interference) oracle over control-flow and memory-access traces from compiler instrumentation (SanitizerCoverage)",
        "note": "Every operation on secret integers, Montgomery residues, scalars and keys runs for many secrets, extreme and random, under identical public data, in an unoptimised instrumented build; complete traces must coincide. Deliberate leaks must be seen in each run.",
    },
    "C18": {
        "bin": "c18", "mode": "full", "files": S + ["c18.rs"], "level": "exploration",
        "technique": "runtime monitor: shadow state and invariants asserted after every operation of update histories",
        "note": "Dealt shares through histories of zero-sum updates, mismatched updates of six kinds, aux data restricted to every subset, pairing of shares with aux data.",
    },
    "C19": {
        "bin": "c19", "mode": "full", "files": S + ["c19.rs"], "level": "exploration",
        "technique": "runtime monitor: independent Lagrange interpolation and polynomial-degree oracle over all subsets",
        "note": "Every n up to 7 and every threshold (larger sampled), subsets of every size; conversions there and back; library interpolation at arbitrary points.",
    },
    "C20": {
        "bin": "c20", "mode": "full", "files": S + ["c20.rs"], "level": "exploration",
        "technique": "runtime monitor: agreement and consistency oracle over all parties' results under controlled delivery schedules",
        "note": "KeyInit sessions of 1 to 16 parties, both curves, number and string ids, FIFO/LIFO/random/starving delivery; results compared across parties and with the harness's own arithmetic.",
    },
    "C21": {
        "bin": "c21", "mode": "full", "files": S + ["c21.rs"], "level": "exploration",
        "technique": "runtime monitor: agreement, freshness and consistency oracle over all parties' results under controlled delivery schedules",
        "note": "Hundreds of KeyRefresh and AuxGen sessions (1-5 parties, repeated refreshes, shares of three origins); keys, changes and aux data checked with independent arithmetic, no modulus, prime or change ever repeats.",
    },
    "C22": {
        "bin": "c22", "mode": "full", "files": S + ["c22.rs"], "level": "exploration",
        "technique": "runtime monitor: agreement and independent ECDSA oracle over all signers' results under controlled delivery schedules",
        "note": "Signing sessions with shares of nine origins and aux data of five, extreme messages, 1-5 signers; same signature everywhere, valid, normalized, recoverable, nonce never reused. Production-size sessions in the thorough tier.",
    },
    "C23": {
        "bin": "c23", "mode": "full", "files": S + ["c23.rs"], "level": "exploration",
        "technique": "runtime monitor: agreement and reconstruction oracle over all parties' results under controlled delivery schedules",
        "note": "Chains of resharing sessions over random holder sets, thresholds (from 1), participating subsets and schedules; every new-threshold subset interpolated.",
    },
    "C24": {
        "bin": "c24", "mode": "full", "files": A + ["smart.rs", "c24.rs"], "level": "exploration",
        "technique": "runtime monitor: fault-injecting sessions of the real protocol rounds; oracle: independent evidence judge and result agreement",
        "note": "Field-level mutation of every delivered message in all five protocols and both signing error rounds; refitted commitments; parties playing fitting values of their own (short moduli, changes that do not cancel, non-residue bases); adaptive share-ID claims in resharing. n = 2 to 4 parties, test-size parameters.",
    },
    "C25": {
        "bin": "c25", "mode": "full", "files": A + ["c25.rs"], "level": "exploration",
        "technique": "runtime monitor: every kind of claim judged against honest parties' recorded messages; oracle: never confirmed, never a crash",
        "note": "Kinds of claims found through the error types' own decoding; honest, deviating and error-round sessions; also judged over changed messages. n = 2 to 4 parties, test-size parameters.",
    },
    "C26": {
        "bin": "c26", "mode": "full", "files": A + ["c26.rs"], "level": "exploration",
        "technique": "runtime monitor: fault-injecting sessions of the real protocol rounds; oracle: no panic and no unattributed failure of an honest party",
        "note": "Same workload as C24, judged for panics and errors that name nobody, in rounds and in the judge.",
    },
    "C27": {
        "bin": "c27", "mode": "full", "files": S + ["rigs.rs", "c27.rs"], "level": "exploration",
        "technique": "runtime monitor: replay between paired sessions of the real protocol rounds; oracle: every receiver of a differing part refuses its sender or never finishes",
        "note": "Pairs of sessions differing in one thing with all generators else equal; parties alike in everything but the name; parts, messages and transcript prefixes replayed. Key resharing excluded (no session binding by design).",
    },
    "C28": {
        "bin": "c28", "mode": "full", "files": S + ["c28.rs"], "level": "exploration",
        "technique": "runtime monitor: acceptance oracle over entry points, dealers and share conversions fed with fitting and unfitting inputs",
        "note": "All five protocols' constructors and make_round, the dealer and the threshold conversions; sets without the party, mixed owners and party sets, other holders' shares, unusable thresholds; number and string ids, both curves.",
    },
}
