"""The properties, their checks and what each check covers. gen.py writes properties.jsonl and MANIFEST.json from this."""

A_STANDINS = ("blst/blstrs are replaced by stand-ins: scalars are exact elements of F_r, group elements are their discrete "
              "logarithms over F_r (the group is cyclic of prime order r), the pairing is multiplication of logarithms, SHA-256 is an "
              "injective function with unknown outputs; the arithmetic inside blst itself is trusted (thorough runs re-check every "
              "case on the real libraries)")
A_GENERIC = ("paths that need an unlikely equality between unknowns are explored by solving for that equality (listed per case as paths); "
             "cases with all_paths=false leave further such coincidence paths unexplored")
A_SOLVER = "z3's answers; the translation of each residual to a linear query is done by the engine's exact normaliser (exact arithmetic over F_r)"
STD = [A_STANDINS, A_GENERIC, A_SOLVER]

SYMX = "symbolic execution of the compiled crate over algebraic stand-ins, z3 on the residual of every claim"

def P(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if kw.get("observe"):
        d["anchors"]["observe_at"] = kw["observe"]
    d["anchors"]["hook_needed"] = None
    return d, kw

KANI = "Kani/CBMC bounded model checking"
def unit(feature, case, quick, thorough=(), **kw):
    """harnesses of engine/kani_unit; a counterexample counts once the replay case shows it on the public API"""
    return dict(kind="kani", crate="kani_unit", features=[feature], harnesses=dict(quick=list(quick), thorough=list(thorough)),
                flags=["--no-memory-safety-checks", "--no-overflow-checks"], cbmc=["--unwindset", "memcmp.0:50"],
                replay={"": case}, **kw)

PROPS = []
def add(*a, **kw):
    PROPS.append(P(*a, **kw))

add("C01", "Blob to cells is the systematic Reed-Solomon extension",
    "For every blob of 4096 canonical field elements, computing cells succeeds and the 128 cells hold the evaluations of the unique degree<4096 polynomial "
    "through the blob at all 8192 points, in the order the specification fixes. The first 64 cells are byte for byte the blob, and every output field element is canonical.",
    ["inputs"], "all 2^(255*4096) canonical blobs, for any trusted setup",
    "The spec vectors sample a handful of blobs; an error confined to one coefficient, one butterfly or one output position is invisible unless that blob excites it.",
    ["eip7594/src/prover.rs", "eip7594/src/serialization.rs", "cryptography/kzg_multi_open/src/fk20/prover.rs", "cryptography/polynomial/src/domain.rs", "cryptography/polynomial/src/fft.rs"],
    [("interpolate, extend, bit-reverse, split into cells", "cryptography/kzg_multi_open/src/fk20/prover.rs: compute_multi_opening_proofs, compute_coset_evaluations"),
     ("cell serialisation", "eip7594/src/serialization.rs: coset_evaluations_to_cells, serialize_scalars_to_cell")],
    observe=["DASContext::compute_cells_and_kzg_proofs"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_cell", "solver/cell", ['cell_first', 'cell_last'], ['cell_all'])],
    explanation="Kani decides for all values of elements that writing a cell puts their 32 bytes one after the other. DASContext::compute_cells_and_kzg_proofs is executed once with all 4096 blob elements as unknowns; the affine form of each of the 8192 output elements is compared with the independently computed Lagrange matrix (4096x8192 coefficients), z3 discharges the residuals.",
    functions=["DASContext::compute_cells_and_kzg_proofs", "deserialize_blob_to_scalars", "FK20Prover::compute_multi_opening_proofs", "Domain::ifft_scalars/fft_scalars", "reverse_bit_order", "coset_evaluations_to_cells"],
    bounds="production size exactly (4096 -> 8192); every element unknown (the paths on which a value is exceptionally zero or equal to another are not followed there), and 31 kinds of structured blob on a line through an unknown (whole classes of zero coefficients or evaluations, low degree, constant, one element), on which such branches are taken; three fixed blobs of 4096 values with unusual byte patterns (powers of two and neighbours, runs of zero or 0xff bytes) byte for byte; writing a cell: all values of the first and the last three elements (thorough: of all 64)",
    outside="non-canonical blobs (C09), proofs (C04)")

add("C02", "Recovery from any 64 or more cells reproduces the original data",
    "Given any at least 64 distinct cells of one honestly extended blob, with their indices in any order, recovery succeeds and returns exactly the 128 original cells and the 128 original proofs.",
    ["inputs", "fault_sequences"], "all blobs, all erasure patterns leaving at least 64 cells, all orders of the surviving cells",
    "There are about 2^127 erasure patterns and any order; the vectors hold a few fixed ones with sorted indices.",
    ["eip7594/src/recovery.rs", "eip7594/src/prover.rs", "cryptography/erasure_codes/src/reed_solomon.rs", "cryptography/kzg_multi_open/src/fk20/cosets.rs"],
    [("cells placed in domain order, vanishing polynomial of the missing blocks, coset division", "cryptography/erasure_codes/src/reed_solomon.rs: recover_polynomial_coefficient"),
     ("index translation", "cryptography/kzg_multi_open/src/fk20/cosets.rs: recover_evaluations_in_domain_order")],
    observe=["DASContext::recover_cells_and_kzg_proofs", "ReedSolomon::recover_polynomial_coefficient"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="For chosen erasure patterns at production size the recovery API is executed on the cells of a blob with 4096 unknowns and every output (8192 elements, 128 proofs) is compared with the originals symbolically; that recovery succeeds for every blob is a separate query (no path equality needed). All erasure patterns of small codes go through the same codec code.",
    functions=["DASContext::recover_cells_and_kzg_proofs", "recover_polynomial_coeff", "find_missing_cell_indices", "recover_evaluations_in_domain_order", "ReedSolomon::recover_polynomial_coefficient and its helpers", "FK20Prover::compute_multi_opening_proofs"],
    bounds="production size, all blobs: 4 patterns quick, 14 thorough (unsorted orders included); production size, all blobs on one line (an unknown times a fixed dense vector): 16 patterns quick, 73 thorough, among them a pattern for every number of cells from 64 to 128; codes of up to 16 points: every erasure set within capacity",
    outside="production-size erasure patterns other than the listed ones are covered only through the small codes")

add("C03", "Recovery rejects malformed or inconsistent input",
    "Recovery returns an error, never a result and never a panic, when the numbers of indices and cells differ, an index is 128 or more, an index repeats, or fewer than 64 cells are given. "
    "It also returns an error whenever the supplied cells are not all evaluations of one polynomial of degree below 4096.",
    ["inputs"], "all index lists, all cell contents with at least one inconsistency in any position",
    "A corrupted cell is caught only if the corruption excites the redundancy check; tests corrupt one or two fixed places.",
    ["eip7594/src/recovery.rs", "cryptography/erasure_codes/src/reed_solomon.rs"],
    [("input validation", "eip7594/src/recovery.rs: validation::recover_polynomial_coeff"),
     ("high coefficients must vanish", "cryptography/erasure_codes/src/reed_solomon.rs: recover_polynomial_coefficient")],
    observe=["DASContext::recover_cells_and_kzg_proofs"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_recover", "solver/recover", ['recover_0', 'recover_63', 'recover_64', 'recover_64_63', 'recover_64_65'], ['recover_100', 'recover_128', 'recover_129'], jobs=4)],
    explanation="Kani decides for all 64-bit index values at once that the request check accepts exactly lists of equal length, 64 to 128 long, in range and free of repetitions. Cells of a symbolic blob with unknown additive corruption: acceptance must imply (by solver) that the corruption is a codeword; malformed index lists are enumerated concretely around every boundary.",
    functions=["DASContext::recover_cells_and_kzg_proofs", "validation::recover_polynomial_coeff", "ReedSolomon::recover_polynomial_coefficient"],
    bounds="all index values for lists of 0, 63, 64 (thorough also 100, 128, 129) and unequal lengths around 64 (lists in which more than three different out-of-range values reach the uniqueness test are not followed); production size; corruption of one unknown element in several positions of the list, for cell counts from 65 to 128 (every one, thorough); all cells of a polynomial with unknown coefficients at up to seven places above the degree bound (first, last and middle places); index lists around the boundaries 0, 63, 64, 127, 128, 2^32, 2^64-1",
    outside="corruption of many cells at once with arbitrary structure (covered at small sizes by C17)")

add("C04", "Cell proofs are the KZG quotient commitments of their cells",
    "For every blob and every trusted setup with at least 4096 G1 elements, proof k is the commitment (under that setup) to the quotient of the blob polynomial by the vanishing polynomial of cell k's evaluation points. "
    "This holds with and without precomputation, for polynomials given by values or by coefficients, and for every admissible size of the multi-opening prover.",
    ["inputs", "configurations"], "all blobs, all setups (not only powers of one secret), all precomputation widths, all sizes",
    "The FK20 pipeline mixes FFTs, circulant embeddings and window tables; the vectors fix one setup and a few blobs, and never a setup that is not a geometric sequence.",
    ["eip7594/src/prover.rs", "cryptography/kzg_multi_open/src/fk20/prover.rs", "cryptography/kzg_multi_open/src/fk20/h_poly.rs", "cryptography/kzg_multi_open/src/fk20/batch_toeplitz.rs", "cryptography/kzg_multi_open/src/fk20/toeplitz.rs"],
    [("FK20: Toeplitz products against the reversed setup, FFT over proofs", "cryptography/kzg_multi_open/src/fk20/h_poly.rs: compute_h_poly_commitments; batch_toeplitz.rs: sum_matrix_vector_mul")],
    observe=["DASContext::compute_cells_and_kzg_proofs", "kzg_multi_open::Prover"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Production size with 4096 unknown blob elements over a non-geometric setup, compared with the 128x4096 matrix of the closed form; small sizes with unknown setup and unknown polynomial (bilinear); unknown setup with window tables; setups longer than the polynomial.",
    functions=["FK20Prover::new", "FK20Prover::compute_multi_opening_proofs", "compute_h_poly_commitments", "BatchToeplitzMatrixVecMul", "CirculantMatrix", "FixedBaseMSM", "Domain::fft_g1/ifft_g1_take_n", "g1_batch_normalize"],
    bounds="production size with a fixed setup, with 31 kinds of structured blob on a line, and with two setups that contain points at infinity; sizes up to 16 coefficients (64 thorough) with everything unknown; widths 2-4 (1-8 thorough)",
    outside="batch additions that meet a point and its negative (documented as unsupported in the code)")

add("C05", "Batch verification accepts exactly when the batched opening equation holds",
    "For every well-formed batch, verification accepts if and only if the random linear combination, with powers of the transcript challenge, of the per-cell KZG opening equations holds; "
    "in particular each cell counts with its own commitment, index, values and proof, and a rejected batch is reported as an invalid proof rather than another error.",
    ["inputs"], "all commitments, cells, proofs, index combinations (repeats included), and every value of the challenge",
    "Whether one term is dropped, doubled or paired with the wrong commitment shows only for batches built to expose it; the vectors hold few multi-commitment batches.",
    ["eip7594/src/verifier.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs", "cryptography/kzg_multi_open/src/verification_key.rs"],
    [("deduplication of commitments", "eip7594/src/verifier.rs: deduplicate_with_indices"),
     ("random linear combination and pairing check", "cryptography/kzg_multi_open/src/fk20/verifier.rs: verify_multi_opening")],
    observe=["DASContext::verify_cell_kzg_proof_batch", "kzg_multi_open::Verifier::verify_multi_opening"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_dedup", "solver/rows", ['dedup_3', 'dedup_5'], ['dedup_7'])],
    explanation="Kani decides for every equality pattern among the commitments that deduplication lists each once and points every cell at its own. Commitments, cells, proofs (and at small sizes the setup) are unknowns; the challenge is the unknown output of the hash. On accepting paths z3 shows the defining equation follows from the path condition, on rejecting paths that it contradicts it; both sides are reached by solving for the pairing condition.",
    functions=["DASContext::verify_cell_kzg_proof_batch", "deduplicate_with_indices", "FK20Verifier::verify_multi_opening", "compute_powers", "compute_sum_interpolation_poly", "g1_lincomb", "multi_pairings"],
    bounds="deduplication: lists of 3 and 5 (thorough 7) items, all equality patterns; small verifiers (2-16 points, up to 24 paths each), batches of 1100 cells and of 300 commitments at the smallest size; production size with 1-128 cells and 1-5 commitments, related ones (C, -C, 2C, the identity, the generator) among them, and with 300 commitments (384 cells and 700 commitments thorough)",
    outside="soundness of Fiat-Shamir itself (a cryptographic assumption)")

add("C06", "The verification challenge binds the whole statement",
    "The challenge is derived by hashing exactly the byte string the specification prescribes: domain separator, sizes, number of commitments and cells, every distinct commitment, and per cell its commitment index, cell index, all 64 values and the proof. "
    "Hence two different batches never share a challenge unless the hash collides.",
    ["inputs"], "all well-formed batches",
    "An omitted field is invisible to honest vectors: every honest proof still verifies with any challenge.",
    ["cryptography/kzg_multi_open/src/fk20/verifier.rs"],
    [("transcript", "cryptography/kzg_multi_open/src/fk20/verifier.rs: compute_fiat_shamir_challenge")],
    observe=["bytes given to the hash during DASContext::verify_cell_kzg_proof_batch"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_dedup", "solver/rows", ['dedup_3'], ['dedup_5', 'dedup_7'])],
    explanation="Kani decides that the rows entering the transcript are the positions of the distinct commitments in order of first appearance. The bytes reaching the hash are recorded during symbolic execution; encodings of unknowns are decoded back and compared symbolically with what the specification puts in each position.",
    functions=["deduplicate_with_indices", "compute_fiat_shamir_challenge", "FK20Verifier::verify_multi_opening", "reduce_bytes_to_scalar_bias"],
    bounds="deduplication: lists of 3 (thorough 5 and 7) items, all equality patterns; the batch shapes of C05, that of 1100 cells included",
    outside="SHA-256 itself")

add("C07", "Honestly produced cells and proofs always verify",
    "For every blob, the commitment, cells and proofs this library computes are accepted by its batch verification, for any subset, order, repetition and mixture of cells of several blobs.",
    ["inputs", "histories"], "all blobs, all selections of cells",
    "The vectors fix a few blobs; a convention mismatch between prover and verifier in a rare position needs that position in the batch.",
    ["eip7594/src/prover.rs", "eip7594/src/verifier.rs", "cryptography/kzg_multi_open/src/fk20/prover.rs", "cryptography/kzg_multi_open/src/fk20/verifier.rs"],
    [("prover and verifier agree on points, order and setup", "cryptography/kzg_multi_open/src/fk20/prover.rs, verifier.rs")],
    observe=["DASContext::verify_cell_kzg_proof_batch on outputs of compute_cells_and_kzg_proofs"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Prover outputs for unknown blobs (and at small sizes an unknown secret) are fed to the verifier; acceptance must hold on the only path and need no equality among the unknowns, which z3 confirms.",
    functions=["DASContext::{blob_to_kzg_commitment, compute_cells_and_kzg_proofs, verify_cell_kzg_proof_batch}", "kzg_multi_open::{Prover, Verifier}"],
    bounds="production size: single cells of a fully unknown blob; batches of up to 128 cells of two blobs with some unknown elements; 31 kinds of structured blob (zero, constant and low-degree blobs included) in one batch with a zero and a dense blob; small sizes with unknown secret",
    outside="setups that are not powers of one secret (verification is then not expected to succeed)")

add("C08", "Verification input errors are reported, never accepted and never a panic",
    "Verification returns an error that is not 'invalid proof' when the four lists differ in length or a cell index is 128 or more, accepts the empty batch, and does not panic on any input.",
    ["inputs"], "all list lengths and all 64-bit cell indices",
    "Tests hold a few mismatched lengths; each of the four lists and each position matters.",
    ["eip7594/src/verifier.rs", "eip7594/src/errors.rs"],
    [("input validation", "eip7594/src/verifier.rs: validation::verify_cell_kzg_proof_batch")],
    observe=["DASContext::verify_cell_kzg_proof_batch"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_validate", "solver/validate", ['validate_3', 'validate_6'], ['validate_12'])],
    explanation="Kani decides for all list lengths up to the bound and all 64-bit cell indices that the batch check accepts exactly lists of equal lengths with every index below 128, never reporting an invalid proof itself. List lengths are varied independently and indices placed in every position around every boundary.",
    functions=["DASContext::verify_cell_kzg_proof_batch", "validation::verify_cell_kzg_proof_batch"],
    bounds="all lengths up to 6 (thorough 12) independently and all 2^64 values of each index in the solver query; end to end; lists of 0 to 3 elements in all combinations; 14 lengths from 7 to 1025 with one bad index in up to nine places or with lists longer or shorter by 1, 128, 256 or a factor of two; indices 0..300, powers of two +-1, 2^64-1",
    outside="longer lists")

add("C09", "Only canonical field elements are accepted",
    "Every operation that reads field elements (blobs, cells) rejects any 32-byte value that is not below the field modulus, in any position, with a serialisation error and without panicking; every canonical value, including 0 and the modulus minus one, is accepted.",
    ["inputs"], "all 2^256 values of each 32-byte element, in each position",
    "Tests place a non-canonical value in one position.",
    ["eip7594/src/serialization.rs"],
    [("element decoding", "eip7594/src/serialization.rs: deserialize_bytes_to_scalar")],
    observe=["DASContext::{blob_to_kzg_commitment, compute_cells_and_kzg_proofs, verify_cell_kzg_proof_batch, recover_cells_and_kzg_proofs}"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_scalar", "solver/element", ['scalars_short', 'scalars_1', 'scalars_2', 'scalars_ragged', 'cell_scalars_2', 'cell_scalars_4'], ['scalars_4'])],
    explanation="Kani decides over all byte strings that the decoders succeed exactly when every 32-byte element is below the modulus and the length is a multiple of 32, and return the elements unchanged, with the scalar decoder of the curve library replaced by its contract. Non-canonical values at every position of blobs and cells through every entry point; canonical extremes accepted.",
    functions=["deserialize_bytes_to_scalar", "deserialize_blob_to_scalars", "deserialize_cell_to_scalars"],
    bounds="all byte strings of 31, 32, 33, 64 and 128 bytes in the solver query; end to end; boundary values of the modulus comparison at all 4096 blob and all 64 cell positions, and in batches of up to 300 cells",
    outside="the comparison inside blst")

add("C10", "Only valid prime-order curve points are accepted",
    "Commitments and proofs given to verification are accepted as input only if they are canonical compressed encodings of points on the curve and in the prime-order subgroup; anything else is a serialisation error, in any position. The point at infinity is a valid input.",
    ["inputs"], "all 48-byte strings in each position",
    "Tests hold a few malformed encodings, always alone.",
    ["eip7594/src/serialization.rs"],
    [("checked decompression", "eip7594/src/serialization.rs: deserialize_compressed_g1")],
    observe=["DASContext::verify_cell_kzg_proof_batch"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_point", "solver/point", ['points_1', 'points_2'], ['points_3'], jobs=2, mem_gb=14)],
    explanation="Kani decides for every assignment of kinds (valid, off the curve, outside the subgroup) to the positions of a list that the decoder succeeds exactly if all are valid, keeping order, with the point decoder of the curve library replaced by its contract. Off-curve, out-of-subgroup and malformed encodings in every position of batches; identity accepted.",
    functions=["deserialize_compressed_g1", "deserialize_compressed_g1_points"],
    bounds="lists of 1 and 2 (thorough 3) points with unknown kinds in the solver query; end to end; representatives of each kind of invalid encoding in every position of batches of up to 3; one bad point, or points whose parts outside the subgroup cancel, at the start, the middle and the end of batches of 5 to 300 cells",
    outside="the curve and subgroup tests inside blst")

add("C11", "FFTs evaluate and interpolate exactly",
    "Forward transforms return the values of the polynomial at the powers of the domain's root, inverse transforms return the unique polynomial, coset variants shift by the coset generator, and the group-element versions do the same with points; shorter inputs count as zero padded.",
    ["inputs", "configurations"], "all input vectors, all power-of-two sizes, all shorter lengths, all coset generators",
    "Tests use a few random vectors of one or two sizes.",
    ["cryptography/polynomial/src/domain.rs", "cryptography/polynomial/src/fft.rs", "cryptography/polynomial/src/coset_fft.rs"],
    [("butterflies and twiddles", "cryptography/polynomial/src/fft.rs: fft_inplace")],
    observe=["polynomial::domain::Domain"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Transforms on unknown vectors compared with the defining sums; production sizes 4096 and 8192 included.",
    functions=["Domain::{new, fft_scalars, ifft_scalars, coset_fft_scalars, coset_ifft_scalars, fft_g1, ifft_g1, ifft_g1_take_n}", "fft_inplace", "precompute_twiddle_factors"],
    bounds="sizes 1-32 with all lengths (64 thorough), 4096 and 8192 full length", outside="sizes above 8192")

add("C12", "Fixed-base multi-scalar multiplication equals the plain sum",
    "For every list of fixed points and every list of scalars of the same length, the precomputed multiplication of every window width and the non-precomputed one return the sum of scalar times point.",
    ["inputs", "configurations"], "all points, all scalars, all widths",
    "Random scalars rarely hit the digit boundaries; random points never collide.",
    ["cryptography/bls12_381/src/fixed_base_msm.rs", "cryptography/bls12_381/src/fixed_base_msm_window.rs", "cryptography/bls12_381/src/batch_addition.rs"],
    [("window tables and signed digits", "cryptography/bls12_381/src/fixed_base_msm_window.rs: msm")],
    observe=["FixedBaseMSM::msm", "FixedBaseMSMPrecompWindow::msm"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Points are unknown, scalars are chosen to stress every window (0, 1, -1, all-ones windows, carries); the result must be the linear form with exactly these scalars. The affine addition formulas are checked as algebraic identities by z3. The scalar side for all scalars is C13.",
    functions=["FixedBaseMSM::{new, msm}", "FixedBaseMSMPrecompWindow::{new, precompute_points, msm}", "multi_batch_addition_binary_tree_stride", "batch_inverse_scratch_pad"],
    bounds="widths 2-10, 1-20 points, about 60 scalars per width; 33 to 257 points at widths 2-5 and 8 with three lists of scalars", outside="generator lists in which two window entries are equal up to sign (documented as unsupported)")

add("C13", "Signed-window recoding represents every scalar",
    "For every 256-bit little-endian string below 2^255 and every window width, the signed digits lie within the table range and recombine to the scalar.",
    ["inputs", "configurations"], "all scalars, all widths up to 24, all window positions",
    "Tests recode random scalars with a few widths.",
    ["cryptography/bls12_381/src/booth_encoding.rs"],
    [("Booth digit", "cryptography/bls12_381/src/booth_encoding.rs: get_booth_index")],
    observe=["get_booth_index"],
    technique=KANI + " of the real function with symbolic bytes; " + SYMX, parts=[dict(kind="kani", crate="kani_booth", flags=["--default-unwind", "33"], harnesses=["w%02d" % w for w in range(1, 25)]),
        dict(kind="symx", prop="C12")],
    explanation="The source file is compiled into a Kani harness; scalar bytes, window width and window position are symbolic and CBMC's solver decides the digit identity v_i + b_(iw-1) - 2^w b_(iw+w-1), whose telescoping sum is the scalar.",
    functions=["get_booth_index"], bounds="32-byte scalars; widths 1..24; every window position up to and including the one covering bit 255", outside="widths above 24 (the function reads 32 bits)",
    assumptions=["Kani's translation of MIR and CBMC's SAT solver"])

add("C14", "Batch inversion and batch addition equal their one-by-one counterparts",
    "Batch inversion returns the inverse of each element and refuses a zero element; batch addition of any list (or lists) of points returns the sum of each list.",
    ["inputs"], "all lists of nonzero elements; all lists of points not containing a point and its negative or the identity",
    "Random tests do not meet equal points, odd lengths around the threshold, or zero at each position.",
    ["cryptography/bls12_381/src/batch_inversion.rs", "cryptography/bls12_381/src/batch_addition.rs"],
    [("Montgomery trick", "cryptography/bls12_381/src/batch_inversion.rs"), ("strided tree of affine additions", "cryptography/bls12_381/src/batch_addition.rs")],
    observe=["batch_inverse", "batch_addition_binary_tree_stride", "multi_batch_addition_binary_tree_stride"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Unknown elements and points (with chosen duplicates so that doubling happens); results compared with the plain inverse and sum, the affine formulas verified as identities.",
    functions=["batch_inverse", "batch_inverse_scratch_pad", "batch_addition_binary_tree_stride", "multi_batch_addition_binary_tree_stride", "point_add_double", "choose_add_or_double"],
    bounds="lists up to 40 elements around the batching threshold; batch inversion also with lengths around every power of two from 64 to 8192, and batch addition of up to 2050 points and up to 1025 lists: different multiples of five unknowns", outside="a point together with its negative, identity points (documented as unsupported)")

add("C15", "Linear combinations of points are exact and length-checked",
    "For every list of points (identity included, anywhere) and scalars of equal length the G1 and G2 linear combinations return the sum of scalar times point; lists of different length are refused.",
    ["inputs"], "all points including the identity in any position, all scalars, all length pairs",
    "Tests cover one identity position and equal lengths.",
    ["cryptography/bls12_381/src/lincomb.rs"],
    [("identity filtering", "cryptography/bls12_381/src/lincomb.rs: g1_lincomb, g2_lincomb")],
    observe=["g1_lincomb", "g2_lincomb", "g1_lincomb_unsafe", "g2_lincomb_unsafe"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Unknown points and scalars with the identity at every subset of positions (also reached as paths by solving P=0); results compared with the bilinear sum.",
    functions=["g1_lincomb", "g2_lincomb", "g1_lincomb_unsafe", "g2_lincomb_unsafe"],
    bounds="up to 4 points with all identity masks; 31 to 1025 points (G2: 16 to 130), every ninth or seventh the identity; all length pairs up to 4", outside="longer lists")

add("C16", "Polynomial arithmetic is exact",
    "Addition, negation, subtraction, multiplication, evaluation, vanishing polynomial and interpolation return the mathematically defined polynomial or value for every input, including empty and unequal-length ones, without panicking; interpolation refuses repeated points.",
    ["inputs"], "all coefficient vectors and points up to the bound",
    "Tests use single fixed polynomials.",
    ["cryptography/polynomial/src/poly_coeff.rs"],
    [("coefficient arithmetic", "cryptography/polynomial/src/poly_coeff.rs")],
    observe=["polynomial::poly_coeff"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="Unknown coefficients and points at all pairs of small lengths, compared with the defining sums.",
    functions=["poly_add", "poly_neg", "poly_sub", "poly_mul", "poly_eval", "vanishing_poly", "lagrange_interpolate"],
    bounds="lengths 0-6 (products), up to 7 points, everything unknown; products up to 64x64 and 300, evaluation and vanishing polynomials up to 100, interpolation of up to 65 points: multiples of a few unknowns; interpolation also of 2-4 points that may coincide in any way", outside="longer polynomials")

add("C17", "The Reed-Solomon codec recovers or refuses",
    "Encoding evaluates the polynomial at every point of the extended domain; recovery from a codeword with any erasures within capacity returns the original polynomial, and returns an error when erasures exceed capacity, the length is wrong, a block index is out of range, or the surviving values are not consistent with any polynomial of allowed degree.",
    ["inputs", "fault_sequences"], "all data, all erasure patterns and all corruptions, for each code size",
    "Tests erase random blocks of one code size and never corrupt.",
    ["cryptography/erasure_codes/src/reed_solomon.rs"],
    [("vanishing polynomial division", "cryptography/erasure_codes/src/reed_solomon.rs")],
    observe=["ReedSolomon::encode", "ReedSolomon::recover_polynomial_coefficient"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="All values of the received word are unknown: on accepting paths z3 shows the word is consistent and the result is its polynomial, on rejecting paths that it is inconsistent.",
    functions=["ReedSolomon::{new, encode, recover_polynomial_coefficient, acceptable_num_block_erasures, codeword_length}", "construct_vanishing_poly_from_*"],
    bounds="codes up to 16 points, every block erasure set (thorough) or a covering family; codes of 32 to 128 points, eight patterns around the capacity; two codes with every degree and single missing coefficients", outside="longer codes (production size in C02, C03)")

add("C18", "The commitment is the commitment to the blob polynomial",
    "For every blob and setup, the commitment is the sum of the blob polynomial's coefficients times the setup's monomial G1 elements, encoded as a valid compressed point.",
    ["inputs", "configurations"], "all blobs, all setups",
    "Vectors fix one setup and a few blobs.",
    ["eip7594/src/prover.rs", "cryptography/kzg_multi_open/src/commit_key.rs", "cryptography/kzg_multi_open/src/fk20/prover.rs"],
    [("interpolate and commit", "cryptography/kzg_multi_open/src/fk20/prover.rs: commit")],
    observe=["DASContext::blob_to_kzg_commitment", "CommitKey::commit_g1", "VerificationKey::{commit_g1, commit_g2}"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="4096 unknown blob elements over a non-geometric setup; small keys with unknown setup and polynomial.",
    functions=["DASContext::blob_to_kzg_commitment", "FK20Prover::commit", "CommitKey::commit_g1", "VerificationKey::{commit_g1, commit_g2, g2_gen}", "serialize_g1_compressed"],
    bounds="production size, with 31 kinds of structured blob on a line and two setups that contain points at infinity; small keys up to 16 elements", outside="")

def bind(feature, battery, quick, thorough=(), cbmc=(), **kw):
    """harnesses of engine/kani_bind; a counterexample counts once the real library shows it (or AddressSanitizer, for a memory fault)"""
    return dict(kind="kani", crate="kani_bind", features=[feature], harnesses=dict(quick=list(quick), thorough=list(thorough)),
                flags=["-Z", "stubbing"], cbmc=list(cbmc), battery=battery, mem_gb=10, jobs=6, **kw)

A_BIND = ("the binding is checked over a scripted library (any of its answers, recorded arguments) with scaled-down sizes (blob 8, cell 4, commitment 2 bytes, 2 cells); "
          "sizes occur in the bindings only through the library's constants")

add("C19", "The C interface passes through exactly what the library computes",
    "Every function of the C ABI hands the library exactly the caller's bytes, indices and list lengths, writes exactly the library's results into the caller's buffers on success and nothing on failure, and reads and writes no memory outside the buffers it was given. "
    "It reports success exactly when the library succeeds, an invalid proof as verdict false (not as an error), and a non-null message exactly on error; contexts and messages are freed exactly once, and null or empty lists of length 0 are accepted.",
    ["inputs", "configurations"], "all buffer contents, all index values, all list lengths (equal or not), all answers of the library",
    "The spec vectors call each function with well-formed lists and compare outputs; out-of-bounds access and confused lengths go unnoticed.",
    ["bindings/c/src/lib.rs", "bindings/c/src/blob_to_kzg_commitment.rs", "bindings/c/src/compute_cells_and_kzg_proofs.rs", "bindings/c/src/recover_cells_and_kzg_proofs.rs", "bindings/c/src/verify_cells_and_kzg_proofs_batch.rs", "bindings/c/src/pointer_utils.rs"],
    [("pointers to slices and back", "bindings/c/src/pointer_utils.rs"),
     ("status and message", "bindings/c/src/lib.rs: CResult")],
    observe=["eth_kzg_* functions"],
    technique=KANI + "; " + SYMX, parts=[dict(kind="symx", features=["capi"]),
        bind("b_c", "c", ['c_new', 'c_commitment', 'c_compute', 'c_compute_err', 'c_recover_0_0', 'c_recover_2_1', 'c_recover_1_2', 'c_recover_2_2', 'c_verify_0_0_0_0', 'c_verify_1_1_1_1', 'c_verify_0_1_2_3', 'c_verify_3_2_1_0', 'c_verify_2_2_2_2'],
             ['c_recover_3_2', 'c_verify_2_1_2_1', 'c_verify_3_3_3_3'])],
    explanation="Kani compiles the binding's sources over a scripted library and decides, for all buffer contents, index values and answers at the listed list lengths, that arguments, results, status and messages are passed through and that every memory access is inside the buffers (its pointer checks are on). The symbolic executor runs the same functions at production size in the multi-threaded build, with blobs, cells and commitments of unknown content, guard bytes around every buffer, and compares with the Rust API symbolically.",
    functions=["eth_kzg_das_context_new/free", "eth_kzg_free_error_message", "eth_kzg_blob_to_kzg_commitment", "eth_kzg_compute_cells_and_kzg_proofs", "eth_kzg_recover_cells_and_proofs", "eth_kzg_verify_cell_kzg_proof_batch", "eth_kzg_constant_*", "pointer_utils"],
    bounds="Kani: list lengths 0 to 3, equal and unequal; production size: 64 and more cells, batches of up to 4 cells, malformed lists",
    outside="invalid pointers and wrong lengths given by the caller (undefined by contract); the text of messages", assumptions=STD + [A_BIND])

add("C20", "The Node and Java bindings pass through exactly what the library computes",
    "For every argument, each method of the Node and Java bindings (and each asynchronous twin) either refuses with an error or exception because an argument has a wrong size or an index is no unsigned 64 bit integer (Java: is null), or hands the library exactly the caller's data and returns exactly its answer. "
    "An invalid proof is the verdict false, every other failure of the library an error; nothing the caller passes ends the process.",
    ["inputs", "configurations"], "all byte contents, sizes around the expected ones, all integers as indices, all answers of the library",
    "The bindings' tests run the spec vectors, which are well formed; sizes, integers out of range and error kinds are not exercised.",
    ["bindings/node/src/lib.rs", "bindings/java/rust_code/src/lib.rs", "bindings/java/rust_code/src/errors.rs"],
    [("integers and arrays from JavaScript", "bindings/node/src/lib.rs: bigint_to_u64, slice_to_array_ref"),
     ("arrays from and to the JVM, exceptions", "bindings/java/rust_code/src/lib.rs: jobject_array_to_2d_byte_array, jlongarray_to_vec_u64, cells_and_proofs_to_jobject, throw_on_error")],
    observe=["DasContextJs", "ethereum.cryptography.LibEthKZG"],
    technique=KANI, parts=[
        bind("b_node", "node", ['node_new', 'node_commitment', 'node_commitment_async', 'node_compute', 'node_compute_err', 'node_compute_async', 'node_cells', 'node_cells_async', 'node_recover_1_1', 'node_recover_1_2', 'node_verify_0', 'node_verify_1c', 'node_verify_1e', 'node_verify_1p', 'node_verify_mixed', 'node_verify_async'],
             ['node_recover_2_2', 'node_recover_1_1_async', 'node_verify_2'], sub="-node"),
        bind("b_java", "java", ['java_new', 'java_commitment', 'java_commitment_err', 'java_commitment_short', 'java_commitment_long', 'java_commitment_null', 'java_compute_err', 'java_compute_short', 'java_recover_0_0', 'java_recover_2_2', 'java_recover_1_2_err', 'java_recover_2_1_short', 'java_verify_0', 'java_verify_1', 'java_verify_2', 'java_verify_mixed', 'java_verify_c_short', 'java_verify_e_long', 'java_verify_p_short'],
             ['java_recover_2_2_long', 'java_verify_p_null'], sub="-java"),
        bind("b_java", "java", ['java_compute'], cbmc=["--no-array-field-sensitivity"], sub="-java2")],
    explanation="Kani compiles the bindings' Rust sources over models of the napi and jni crates and the scripted library and decides, for all contents, integers (BigInts of up to three words and either sign, all longs), sizes one off and answers, that the library is asked exactly for acceptable arguments, gets exactly them, and that its answer is returned. A counterexample counts when the binding built as it is, loaded into Node or a JVM, also departs from what the Rust library computes.",
    functions=["DASContextJs: every method and its asynchronous twin", "bigint_to_u64", "slice_to_array_ref", "Java_ethereum_cryptography_LibEthKZG_*", "jobject_array_to_2d_byte_array", "jlongarray_to_vec_u64", "cells_and_proofs_to_jobject", "throw_on_error"],
    bounds="lists of 0 to 2 items; sizes one off; asynchronous twins as one poll",
    outside="napi and jni themselves and the JavaScript and Java files of the packages (met only when replaying); the contents of recovered cells on the Java side, which are made by the same helper as the computed ones; the Go, C# and Nim wrappers (see not applicable)",
    assumptions=[A_BIND, "the models of napi and jni behave as these crates do for the calls the bindings make", "CBMC's verdicts"])

add("C21", "Results do not depend on threads, precomputation or earlier calls",
    "A context returns the same cells, commitments, proofs, verdicts and recoveries for the same input whatever the number of threads, whether and with which width tables are precomputed, and whatever successful or failing calls were made before on it.",
    ["configurations", "histories", "schedules"], "all thread counts, all widths, all call sequences",
    "Tests run one context configuration at a time, single-threaded, mostly once per context.",
    ["eip7594/src/lib.rs", "eip7594/src/macros.rs", "maybe_rayon/src/multi_threaded.rs", "maybe_rayon/src/single_threaded.rs", "cryptography/bls12_381/src/fixed_base_msm.rs"],
    [("thread pool around every call", "eip7594/src/macros.rs: with_optional_threadpool"), ("parallel iterators", "maybe_rayon/src")],
    observe=["DASContext with multithreaded on and off"],
    technique=SYMX, parts=[dict(kind="symx"), dict(kind="symx", features=["mt"], quick_filter="threads")],
    explanation="The closed forms of C01, C04, C05 and C18 are re-established after a history of other (also failing) calls on the same context, in the multi-threaded build for several thread counts, and with window tables at production size over an unknown setup; equal closed forms mean equal results.",
    functions=["DASContext::{new, with_threads}", "with_optional_threadpool", "maybe_rayon", "FixedBaseMSMPrecompWindow at production size"],
    bounds="thread counts 1, 2, 7 and default (9 counts thorough), width 8 (2-9 thorough), one history of eight calls, a journal of every ordered pair of 18 verification calls (valid, invalid and malformed) followed by an undetermined one, and every ordered pair of nine prover calls, twice (of 17 thorough): encoding, commitment, recovery, refused ones",
    outside="all interleavings of the thread pool: each run executes one schedule chosen by the machine; at production size the affine-addition identities are not re-proved (C12 and C14 do)")

add("C22", "The trusted setup is used exactly and refused when invalid",
    "Commitments and proofs use the setup's monomial G1 elements each with exactly the mathematically required coefficient, and verification uses the first 64 G1 elements and the first and 65th G2 elements, and nothing else of the setup. "
    "Loading a setup with checks refuses malformed text, off-curve points and points outside the prime-order subgroup.",
    ["inputs", "configurations"], "all setups",
    "All tests use the one embedded setup, in which many wrong choices cannot be told apart.",
    ["eip7594/src/trusted_setup.rs", "cryptography/kzg_multi_open/src/verification_key.rs", "cryptography/kzg_multi_open/src/commit_key.rs"],
    [("parsing and key construction", "eip7594/src/trusted_setup.rs: to_commit_key, to_verification_key")],
    observe=["TrustedSetup::{from_json, from_json_unchecked}", "DASContext::new"],
    technique=SYMX, parts=[dict(kind="symx")],
    explanation="All 4096 G1 and 65 G2 setup elements are independent unknowns passed through the JSON entry point; commitment and proofs must be the closed linear forms in them and verification the defining equation.",
    functions=["TrustedSetup::{from_json, from_json_unchecked, to_commit_key, to_verification_key}", "deserialize_g1_points", "deserialize_g2_points", "ProverContext::new", "VerifierContext::new"],
    bounds="production size; one concrete blob; batches of 1-3 cells; invalid elements at chosen positions", outside="the bytes of the embedded mainnet setup")

add("C23", "Cell placement in domain order is a faithful permutation",
    "Arranging cosets for recovery puts every supplied evaluation at its place of the evaluation domain, leaves absent ones zero and returns matching coset positions; unusable inputs (nothing supplied, unequal, empty, oversized or out-of-range cosets) are refused without panicking.",
    ["inputs", "configurations"], "all evaluation values, all index lists without repeats, all sizes",
    "One test prints one example.",
    ["cryptography/kzg_multi_open/src/fk20/cosets.rs"],
    [("bit-reversal bookkeeping", "cryptography/kzg_multi_open/src/fk20/cosets.rs: recover_evaluations_in_domain_order")],
    observe=["recover_evaluations_in_domain_order"],
    technique=SYMX + "; " + KANI, parts=[dict(kind="symx"),
        unit("k_cosets", "solver/reorder", ['reorder_none', 'reorder_empty', 'reorder_8_1x2', 'reorder_8_2x2', 'reorder_8_3x2', 'reorder_8_2x4', 'reorder_8_1x8', 'reorder_4_1x8', 'reorder_4_4x1', 'reorder_8_2_1', 'reorder_8_2_2_4', 'reorder_8_2_0'], ['reorder_16_2x4'])],
    explanation="Kani decides for all 64-bit coset indices and the listed shapes that the real function answers exactly for well-formed input and then puts every value at its bit-reversed place, zero elsewhere. Unknown evaluations with chosen index lists compared position by position with the definition; malformed shapes enumerated.",
    functions=["recover_evaluations_in_domain_order", "reverse_bit_order", "reverse_bits", "coset_gens"],
    bounds="solver query: domains 4 and 8 (thorough 16), up to 4 cosets, all index values; symbolic execution; domains 4-32 and 8192", outside="")

add("C24", "The Go, C# and Nim wrappers pass through exactly what the library computes",
    "Each wrapper refuses arguments of wrong sizes, hands the C interface exactly the caller's data and returns exactly its results and errors.",
    ["inputs"], "all byte contents and sizes",
    "Their tests run the well-formed spec vectors.",
    ["bindings/golang/prover.go", "bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs", "bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim"],
    [("calls into the C interface", "bindings/golang/prover.go, bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs, bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim")], technique="", parts=[])

NOT_APPLICABLE = [dict(property="C24", reason="no symbolic executor for Go, C# or Nim is installed, nor a C# or Nim compiler to run a counterexample on; the interface these wrappers call is C19's")]

TABLE = {}
for d, kw in PROPS:
    if not kw["parts"]:
        continue
    TABLE[d["id"]] = dict(parts=kw["parts"], explanation=kw["explanation"], functions=kw["functions"], bounds=kw["bounds"],
                          outside=kw["outside"], assumptions=kw.get("assumptions", STD), technique=kw["technique"])
