#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the source of truth for titles/statements is this table).
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
I=["inputs"]; IP=["inputs","programs"]; IH=["inputs","histories"]; IC=["inputs","configurations"]

p("F01","Field arithmetic is exact arithmetic modulo the field order",
 "In each of the six prime fields, addition, subtraction, negation, multiplication, squaring, cubing, doubling, tripling, quadrupling, inversion (single and batch, with and without zeros), division and exponentiation return exactly the residue that integer arithmetic modulo the field order gives, and inversion reports zero as having no inverse. Equal residues are equal elements, however they were computed. The named constants of a field (zero, one, small integers, minus one) have the values their names say.",
 I,"every field, every pair (list) of elements, including those with extreme limbs, zero, p-1 and values around the order",
 "The unit tests sample a few dozen hand-picked pairs and random elements; carries and final-subtraction conditions in Montgomery multiplication/squaring fail only on a vanishing fraction of inputs.",
 ["src/field/field.rs","src/field/monty.rs","src/field/bls12_377_base.rs","src/field/bls12_377_scalar.rs","src/field/tweedledee_base.rs","src/field/tweedledum_base.rs","src/field/pallas_base.rs","src/field/vesta_base.rs","src/bigint/bigint_arithmetic.rs","src/bigint/bigint_inverse.rs"],
 [("Montgomery multiplication, squaring, inversion","src/field/monty.rs"),("BLS12-377 field arithmetic","src/field/bls12_377_*.rs"),("generic exponentiation, batch inversion","src/field/field.rs"),("limb arithmetic","src/bigint")],
 ["the public Field operations"])
p("F02","Field elements convert to and from integers faithfully",
 "Converting a field element to limbs, bytes, bits, a big integer or text and back yields the same element and the same integer below the field order, and a non-canonical encoding (an integer not below the order) is reported invalid by the validity tests and rejected by the checked decoders. Comparison and bit-length of field elements agree with those of the integers they stand for. Converting between fields preserves the integer whenever it fits the target field and is refused when it does not.",
 I,"every field, every element, every limb pattern including those at and just around the order, every pair of fields",
 "Tests round-trip a handful of random elements; the interesting region (top limb equal to that of the order, values in the gap between two orders) is never sampled.",
 ["src/field/field.rs","src/conversions.rs","src/field/monty.rs","src/field/bls12_377_base.rs","src/field/bls12_377_scalar.rs"],
 [("canonical limb/byte/bit conversions, validity test, comparison","src/field/field.rs"),("big-integer conversions","src/conversions.rs"),("into/out of Montgomery form","src/field/monty.rs")],
 ["the public Field conversions"])
p("F03","Roots, residues and roots of unity satisfy their defining equations",
 "An element has a square root reported exactly when it is a quadratic residue, and the returned root squares back to it; the k-th root of an element raised to k gives the element whenever x -> x^k permutes the field. A primitive 2^k-th root of unity has order exactly 2^k and the roots for different k are mutually consistent; the enumerated cyclic subgroup is exactly the powers of the generator. The multiplicative generator, two-adicity, odd part and permutation exponent declared for a field are correct for its order.",
 I,"every field, every element, every supported k",
 "Tests take square roots of a few random squares and check one or two roots of unity.",
 ["src/field/field.rs","src/field/monty.rs"],
 [("square_root / Tonelli-Shanks, kth_root, is_quadratic_residue, primitive_root_of_unity, cyclic_subgroup","src/field/field.rs"),("declared constants","src/field/*_base.rs, src/field/*_scalar.rs")],
 ["public Field functions and constants"])
p("C01","Point addition, doubling and negation implement the elliptic curve group",
 "For every pair of points in any mix of representations (affine, projective with arbitrary scaling, precomputation-style affine sums), addition, subtraction, doubling and negation give the curve's group operation, including the identity, equal points and opposite points. Conversion between representations, in batch or singly, keeps the point, and equality of points is equality of group elements. The validity test accepts exactly the identity and the points satisfying the curve equation.",
 I,"every curve, every pair of points in every representation",
 "Tests add a few fixed multiples of the generator; the exceptional cases crossed with representations and non-trivial scalings are not enumerated.",
 ["src/curve/curve.rs","src/curve/curve_adds.rs"],
 [("affine/projective/mixed addition formulas","src/curve/curve_adds.rs"),("doubling, negation, conversions, equality, validity","src/curve/curve.rs")],
 ["AffinePoint/ProjectivePoint operators"])
p("C02","Scalar multiplication is repeated addition",
 "Multiplying any point by any scalar, directly or through a per-base precomputation, gives the point added to itself that many times, for scalars zero, one, order minus one and everything between and for the identity point. Multiplication distributes over point addition and scalar addition, and the declared generator of each curve has the declared group order.",
 I,"every curve, every point, every scalar",
 "Tests multiply the generator by a few values; digits at window boundaries, leading/trailing zero windows and maximal digits are not covered.",
 ["src/curve/curve_multiplication.rs","src/curve/curve.rs"],
 [("windowed multiplication with precomputation","src/curve/curve_multiplication.rs")],["C::convert(s) * p, MultiplicationPrecomputation"])
p("C03","Multi-scalar multiplication equals the sum of the scalar products",
 "For any list of points and equally long list of scalars, the one-shot, precomputed, serial and parallel multi-scalar multiplications all return the sum of each point times its scalar, for every admissible window size, and a precomputation can be reused for different scalars. This includes empty-digit, zero, maximal and repeated scalars, identity and repeated points, and any number of terms including one.",
 IC,"every list of points and scalars, every window size, every thread count",
 "One test compares one random instance at one window size.",
 ["src/curve/curve_msm.rs"],
 [("Yao's method, digit extraction, chunked parallel reduction","src/curve/curve_msm.rs")],["msm_precompute, msm_execute, msm_execute_parallel, msm_parallel"])
p("C04","Batched point summation equals adding the points one by one",
 "Summing a list of affine points, or many lists at once, by any of the provided strategies (naive, pairwise, batched inversion, or automatic choice) returns for each list the group sum of its points. Lists may be empty, of different lengths, and contain the identity, repeated points and opposite points.",
 I,"every list (of lists) of points, lengths on both sides of the strategy threshold",
 "Tests sum one or two small fixed lists; equal/opposite neighbours inside a batch and lengths at the strategy threshold are not exercised.",
 ["src/curve/curve_summations.rs"],
 [("best-strategy selection and batch inversion","src/curve/curve_summations.rs")],["affine_summation_*, affine_multisummation_*"])
p("C05","Endomorphism multiplication by challenge bits equals its scalar definition",
 "For every point and every bit string of admissible length, the endomorphism-based multiplication used for challenges equals ordinary multiplication by the scalar that the companion scalar function assigns to the same bits. The endomorphism itself is multiplication by the curve's declared scalar, whose cube is one, on every point. The companion scalar function matches its definition in the Halo paper.",
 I,"every Halo curve, every point, every even-length bit string",
 "One test compares a single random case per curve.",
 ["src/plonk_util.rs","src/curve/curve.rs"],
 [("halo_n, halo_n_mul","src/plonk_util.rs"),("endomorphism, ZETA, ZETA_SCALAR","src/curve/*_curve.rs")],["halo_n, halo_n_mul, endomorphism"])
p("C06","Hashing to a curve is deterministic, valid and input-sensitive",
 "Hashing any field element, seed or index to a curve returns a non-identity point that satisfies the curve equation and lies in the intended curve, the same point every time, and different points for different inputs. The point is the one the documented try-and-increment procedure over the seed's pseudorandom stream produces, so independently computed generators agree between provers and verifiers.",
 I,"every curve, every seed",
 "Tests check validity for a few seeds only.",
 ["src/hash_to_curve.rs","src/pseudorandom.rs"],
 [("try-and-increment over Blake3 output (or a Rescue sponge) of seed and attempt","src/hash_to_curve.rs")],["blake_hash_*_to_curve"])
p("P01","FFTs are evaluation and interpolation on the declared domains",
 "Forward transforms return the values of the coefficient polynomial on the subgroup of the requested size (for shorter coefficient lists: zero-extended) in order, and inverse transforms recover the coefficients, for every size including one and two. The result does not depend on whether a precomputation is supplied, on reuse of a precomputation, or on parallel execution.",
 IC,"every field, every length, every coefficient vector and precomputation",
 "Tests compare one 200-coefficient vector with naive evaluation.",
 ["src/fft.rs","src/polynomial.rs"],
 [("radix-2 FFT with precomputed roots","src/fft.rs")],["fft*, ifft*, Polynomial::eval_domain/from_evaluations"])
p("P02","Polynomial ring operations agree with schoolbook polynomials",
 "Addition, multiplication, evaluation, degree, trimming, padding, equality and interpolation of polynomials agree with schoolbook arithmetic on coefficient lists, irrespective of leading zero coefficients. Operations never change the polynomial a value denotes except where they say so.",
 I,"all pairs of coefficient lists including empty, zero, constant and padded ones",
 "Tests draw random dense polynomials of a few degrees, never the zero polynomial or padded ones.",
 ["src/polynomial.rs","src/plonk_util.rs"],
 [("Polynomial operators","src/polynomial.rs"),("eval_poly, reduce_with_powers, powers","src/plonk_util.rs")],["Polynomial"])
p("P03","Polynomial division satisfies the division identity",
 "Dividing any polynomial by any non-zero polynomial, by either division algorithm, gives the unique quotient and remainder with dividend = quotient * divisor + remainder and remainder of smaller degree. Division by a vanishing polynomial x^n - 1 of a multiple of it returns the exact cofactor.",
 I,"all dividend/divisor pairs including sparse, zero, low-degree and padded ones",
 "Tests use dense random polynomials for which every intermediate coefficient is non-zero.",
 ["src/polynomial.rs"],
 [("long division, Newton division, power series inverse, divide_by_z_h","src/polynomial.rs")],["Polynomial::polynomial_division, polynomial_long_division, inv_mod_xn, divide_by_z_h"])
p("S01","Field elements and curve points survive serialization and bad bytes are refused",
 "Writing any field element or curve point in the byte format or through serde and reading it back gives the same value, each value has one canonical encoding of the declared size, and values written one after another are read back one after another. Byte strings that are truncated, encode an integer not below the field order, or an abscissa with no point on the curve, are rejected with an error and never produce an invalid element or point or a crash.",
 I,"every element and point (identity included) and every byte string",
 "Tests round-trip random elements and points one at a time and feed no malformed bytes.",
 ["src/serialization.rs"],
 [("ToBytes/FromBytes, point compression with sign bit","src/serialization.rs"),("serde impls","src/serialization.rs")],["to_bytes/from_bytes, serde_cbor"])
p("S02","Proofs and verification keys keep their meaning across serialization",
 "Serializing a proof or a verification key (with or without its optional precomputations) and deserializing it gives an equal object that verification treats exactly like the original. Corrupted proof bytes either fail to deserialize or give a proof that verification rejects (or that equals the original), and corrupted bytes of either never crash the decoder.",
 I,"every circuit, proof and key and every corruption of their bytes",
 "Tests serialize a couple of fixed circuits' proofs and never corrupted bytes.",
 ["src/plonk_proof.rs","src/verifier.rs","src/serialization.rs","src/poly_commit.rs"],
 [("serde derives and skip/default of optional precomputation","src/verifier.rs, src/plonk_proof.rs")],["serde_cbor::to_vec/from_slice, verify_proof"])
p("H01","The Rescue hash computes the specified sponge",
 "The Rescue permutation and the hash functions built on it (1 to 1, 2 to 1, n to 1, n to m, for every input and output length and security level) return exactly what the specification gives: round count, round constants, S-boxes, MDS matrix and sponge absorption/squeezing. The permutation is injective, hashing is deterministic, and equally long inputs that differ (also only in one element) have different digests.",
 I,"every field, input list, output count and security level",
 "Tests only check that a circuit and the native code agree on a single input, or timing.",
 ["src/rescue.rs","src/mds.rs","src/pseudorandom.rs"],
 [("rescue_permutation, rescue_sponge","src/rescue.rs"),("Cauchy MDS matrix","src/mds.rs"),("round constants","src/pseudorandom.rs, src/rescue.rs")],["rescue_hash_*"])
p("T01","The transcript binds every challenge to everything observed before it",
 "A challenge drawn from the Fiat-Shamir transcript is a deterministic function of the sequence of elements observed and challenges drawn before it, and changing, dropping, adding (a non-zero element) or reordering any observed element changes every later challenge. Challenges drawn in succession are all different, also without observations between them, and grouping observations into batch calls makes no difference.",
 IH,"every history of observations and challenge requests",
 "Tests compare one fixed history between the native and in-circuit transcript.",
 ["src/plonk_challenger.rs"],
 [("duplex sponge with input/output buffers","src/plonk_challenger.rs")],["Challenger"])
p("T02","In-circuit hashing and transcripts reproduce the native ones",
 "For every history of observations and challenge requests, and for every hash input list, the values computed inside a circuit equal the values the native transcript and hash compute on the same data. Circuit witnesses generated for them satisfy all gate and copy constraints.",
 IH+["programs"],"every history over field elements and points, every input list",
 "One fixed history is tested.",
 ["src/plonk_challenger.rs","src/circuit_builder.rs","src/gates/rescue_a.rs","src/gates/rescue_b.rs"],
 [("RecursiveChallenger","src/plonk_challenger.rs"),("rescue gadgets","src/circuit_builder.rs")],["RecursiveChallenger, rescue_hash_n_to_1 and generate_witness"])
p("T03","Every proof message is bound into the challenges that follow it",
 "Recomputing the challenges of a proof gives values that depend on every public input, every earlier proof being accumulated, every commitment, every opened value and every round message sent before the challenge, so no message can be altered without altering all later challenges. The challenges recomputed from a proof and the public inputs are the ones its prover used.",
 I,"every proof, public-input list and old-proof list, every single alteration",
 "Tests only verify honest proofs, for which an unbound message goes unnoticed.",
 ["src/plonk_proof.rs","src/plonk.rs","src/halo.rs"],
 [("challenge derivation shared by prover and verifier","src/plonk_proof.rs get_challenges, src/plonk.rs generate_proof")],["Proof::get_challenges"])
p("G01","Gate constraints hold exactly for correct gate assignments",
 "For every gate type and every admissible input, the witness values its generator produces satisfy the gate's constraints and are the function of the inputs the gate stands for (arithmetic, constants, Rescue half-rounds, curve addition and doubling). Replacing a constrained output (including next-row outputs) by any other value violates some constraint.",
 I,"every gate type, every configuration constant, every input assignment, every corruption of an output",
 "Gate tests check degrees of the constraint polynomials; acceptance/rejection of assignments is only exercised incidentally.",
 ["src/gates"],
 [("evaluate_unfiltered and generate of each gate","src/gates/*.rs")],["Gate::evaluate_unfiltered, WitnessGenerator::generate, evaluate_all_constraints"])
p("G02","Each row enforces exactly the constraints of its own gate",
 "No gate's selector prefix is a prefix of another's, so with a row's constants set to some gate's selector the combined constraint evaluation equals that gate's own constraints, whatever values the wires and free constants carry. In any circuit built by the builder each row's constants select exactly one gate and keep that gate's configuration constants. Every combined constraint stays within the degree (eight) that the quotient argument provides for.",
 I+["programs"],"every gate type, every wire and constant assignment, every built circuit",
 "Tests check each gate in isolation.",
 ["src/gates/mod.rs","src/circuit_builder.rs"],
 [("prefix filter, evaluate_all_constraints","src/gates/mod.rs"),("add_gate","src/circuit_builder.rs")],["evaluate_all_constraints"])
p("G03","In-circuit constraint evaluation equals native constraint evaluation",
 "For every assignment of row constants and wires, evaluating the combined gate constraints inside a circuit yields the values native evaluation yields on the same data. This holds gate by gate as well as for the combined, filtered constraint vector.",
 I,"every assignment of constants and local/right/below wires, satisfying or not",
 "No test compares the two evaluations.",
 ["src/gates"],
 [("evaluate_unfiltered_recursively / evaluate_filtered_recursively","src/gates/*.rs")],["evaluate_all_constraints_recursively + generate_witness"])
p("K01","Arithmetic gadgets compute field arithmetic inside circuits",
 "In any circuit composed of the builder's arithmetic gadgets (sums, differences, products, fused operations, negation, doubling, squaring, inversion, quotients, exponentiation by constants, constants) over virtual targets, public inputs and other gadgets' results, every target of the generated witness carries the value that evaluating the same expression over the field gives. The generated witness satisfies all gate and copy constraints.",
 IP,"every expression DAG over the gadgets and every input assignment",
 "Tests build a few fixed expressions.",
 ["src/circuit_builder.rs","src/gates/arithmetic.rs"],
 [("arithmetic gadgets and their generators","src/circuit_builder.rs")],["CircuitBuilder, generate_witness"])
p("K02","Boolean, equality, selection and assertion gadgets are correct and binding",
 "Negation of bits, selection, equality and zero tests, bit and base-4 splitting, range checks, deterministic square roots, and conditional copies produce witness values equal to their logical definition for all inputs. Assertions (zero, one, nonzero, binary, equal, conditionally equal) are satisfied exactly when the asserted relation holds, so a circuit asserting a false relation has no accepted witness.",
 IP,"every input assignment, every nesting of the gadgets",
 "Tests cover single hand-written inputs of some gadgets.",
 ["src/circuit_builder.rs"],
 [("is_equal/is_nonzero/select/split_binary/assert_*","src/circuit_builder.rs")],["CircuitBuilder, generate_witness, constraint evaluation"])
p("K03","In-circuit curve operations compute the inner curve's group operations",
 "Curve addition, subtraction, doubling, negation, validity assertion, scalar multiplication and multi-scalar multiplication gadgets produce witnesses whose output point is the group operation applied to the input points and scalars, whenever the inputs avoid the exceptional cases of incomplete addition. The generated witness satisfies all gate and copy constraints.",
 IP,"every pair of distinct points, every scalar, every list of terms",
 "Tests use one random instance per gadget; one of them is known to fail.",
 ["src/circuit_curve.rs","src/gates/curve_add.rs","src/gates/curve_dbl.rs","src/gates/curve_endo.rs"],
 [("curve gadgets","src/circuit_curve.rs"),("curve gates","src/gates/curve_*.rs")],["CircuitBuilder curve_* and generate_witness"])
p("K04","Big-integer and foreign-field gadgets compute integer arithmetic",
 "For every pair of integers within the declared bounds, the big-integer addition, multiplication, division/remainder and comparison gadgets, and foreign-field addition and multiplication, produce witness values equal to the integer (or modular) result, with results inside the declared maximum of the output. The generated witness satisfies all gate and copy constraints; equality and ordering assertions have a witness exactly when the asserted relation holds, and a forged quotient, remainder or other result has none.",
 IP,"every pair of integers up to several limbs, every limb-boundary case",
 "One fixed pair per operation is tested.",
 ["src/circuit_bigint.rs","src/circuit_foreign_field.rs","src/circuit_ordering.rs"],
 [("limb arithmetic with carries","src/circuit_bigint.rs")],["CircuitBuilder bigint_*/foreign_field_* and generate_partial_witness"])
p("W01","Copy constraints become exactly the wiring permutation",
 "The wire partition of a built circuit is exactly the reflexive-transitive closure of the requested copies and the permutation polynomials encode a permutation whose cycles are those classes. Witness generation gives all members of a class the same value, and the permutation argument's accumulator closes if and only if every class carries a single value.",
 IP,"every set of copy requests, every wire assignment",
 "Tests union a handful of targets.",
 ["src/partition.rs","src/plonk_util.rs","src/witness.rs","src/circuit_builder.rs"],
 [("TargetPartitions / WirePartitions / to_sigma","src/partition.rs"),("permutation_polynomial, sigma_polynomials","src/plonk_util.rs")],["TargetPartitions, permutation_polynomial, Circuit"])
p("B01","Verification keys are determined by the circuit and commit to all of it",
 "Two parties that build the same program, whatever else either builds before, between or at the same time, get the same targets, gates, wiring and verification key, and a proof made with the one circuit verifies under the other's key. The key's commitments are exactly the unblinded commitments to the circuit's constant columns and permutation, under generators that are the hashes of 0 to n+1, and its size, public-input layout, security level and precomputations are the circuit's. Programs that describe different circuits (a constant, gate, operand, copy or size) have different keys.",
 IP+["schedules"],"every circuit program, every pair of neighbouring programs, every history of earlier builds",
 "Tests never compare two builds and never recompute a key.",
 ["src/circuit_builder.rs","src/plonk.rs","src/verifier.rs","src/plonk_util.rs"],
 [("CircuitBuilder::build","src/circuit_builder.rs"),("Circuit::to_vk","src/plonk.rs"),("VerificationKey","src/verifier.rs")],["CircuitBuilder::build, to_vk, generate_proof, verify_proof"])
p("Z01","Honest proofs always verify",
 "For every circuit the builder can express, every satisfying assignment and every number of public inputs and gates, the generated proof verifies against the circuit's verification key. Public inputs are taken to be integers that fit both fields of the curve cycle; it holds on both curve cycles in either order, with and without blinding, for both verification modes, and with or without the key's optional precomputations.",
 IP+["configurations"],"every circuit, satisfying assignment, curve pair and option",
 "About a dozen fixed circuits are proved in the tests, on one curve pair order.",
 ["src/plonk.rs","src/verifier.rs","src/halo.rs","src/plonk_util.rs","src/circuit_builder.rs"],
 [("prover","src/plonk.rs generate_proof"),("verifier","src/verifier.rs verify_proof")],["generate_proof, verify_proof"])
p("Z02","A proof verifies only for its own public inputs and its own circuit",
 "A proof accepted for one list of public inputs is rejected for every other list (any entry changed, swapped, dropped or appended), and the public inputs read from the witness are the ones the proof is accepted with. A proof for one circuit is rejected under the verification key of any circuit with different gates, constants, wiring, size or public-input layout.",
 IP,"every circuit, every alteration of the public inputs, every pair of different circuits",
 "Tests reject one wrong public input.",
 ["src/verifier.rs","src/plonk.rs","src/gates/public_input.rs"],
 [("public-input quotient check","src/verifier.rs"),("vk commitments in the batched opening","src/verifier.rs")],["verify_proof"])
p("Z03","Any altered proof component is rejected",
 "Changing any commitment, opened value, round message, final folded generator or Schnorr response of a valid proof, or exchanging components between two valid proofs, makes complete verification fail. This includes alterations crafted to satisfy all but one of the verifier's equations.",
 I+["fault_sequences"],"every valid proof, every component and replacement value",
 "Tests alter one or two components.",
 ["src/verifier.rs","src/halo.rs","src/plonk_proof.rs"],
 [("vanishing identity, public-input quotient, inner-product argument and folded-generator checks","src/verifier.rs, src/halo.rs verify_ipa")],["verify_proof"])
p("Z04","An unsatisfying witness never yields an accepted proof",
 "If a complete wire assignment violates any gate constraint, copy constraint or the public inputs claimed, then no proof produced from it by the prover (run without its internal sanity assertions) is accepted by the verifier. Violations in any single row, wire or copy are enough.",
 IP,"every circuit, every unsatisfying assignment reachable by altering wires",
 "Tests only prove satisfied circuits.",
 ["src/plonk.rs","src/verifier.rs","src/plonk_util.rs"],
 [("quotient polynomial and its opening check","src/plonk.rs vanishing_poly_coeffs, src/verifier.rs")],["generate_proof in a build without debug assertions, verify_proof"])
p("Z05","Deferred verification and accumulation are sound and complete",
 "Verifying with the linear-time check deferred returns exactly the folded generator and challenges of the proof, and a later proof that accumulates such pending checks verifies if and only if all of them are genuine. Altering, dropping, adding or reordering accumulated old proofs between proving and verifying is rejected.",
 IH,"every chain of proofs, every number of accumulated proofs, every alteration",
 "One test accumulates ten identical honest proofs.",
 ["src/verifier.rs","src/plonk.rs","src/plonk_proof.rs","src/plonk_util.rs"],
 [("old proofs' polynomials in the batched opening, halo_g/halo_s","src/plonk.rs, src/verifier.rs")],["verify_proof(.., verify_g=false), generate_proof with old_proofs"])
p("Z06","The inner-product opening argument is complete and binding",
 "For all lists of polynomials, their commitments and evaluation points, the batch opening proof convinces the verifier of exactly the true evaluations: the honest argument passes, and any other claimed evaluation, commitment, point or altered round message fails. Folding vectors and their evaluation obey their definitions (tensor structure, evaluation by products, commitment of the vector is the folded generator).",
 I,"all polynomial lists, points, sizes that are powers of two",
 "One fixed-size instance is tested.",
 ["src/halo.rs","src/plonk_util.rs","src/poly_commit.rs"],
 [("batch_opening_proof, verify_ipa","src/halo.rs"),("halo_s, halo_g","src/plonk_util.rs")],["batch_opening_proof, verify_ipa, halo_s, halo_g"])
p("Z07","Polynomial commitments are the declared linear map",
 "Committing to a coefficient list gives the sum of coefficients times generators plus the blinding factor times the blinding generator, singly or in batch, with the blinding factor reported equal to the one used and zero when blinding is off. Commitments add and scale like the polynomials they commit to, and blinded commitments of the same polynomial differ.",
 I,"all coefficient lists, generator counts, blinding flags",
 "Tests only use commitments inside full proofs.",
 ["src/poly_commit.rs","src/plonk_util.rs"],
 [("PolynomialCommitment, pedersen_hash","src/poly_commit.rs, src/plonk_util.rs")],["PolynomialCommitment"])
p("Z08","The verifier answers every malformed proof with an error, not a crash",
 "Whatever proof, public inputs and old proofs are given for a verification key, verification returns acceptance or an error; it does not panic, index out of bounds or loop. This includes wrong vector lengths, off-curve or identity points, and boundary field values.",
 I,"every structurally representable proof, public-input list and old-proof list",
 "Tests feed well-formed proofs only.",
 ["src/verifier.rs","src/plonk_proof.rs","src/halo.rs"],
 [("check_proof_parameters and challenge derivation","src/verifier.rs, src/plonk_proof.rs")],["verify_proof"])
p("R01","The recursion circuit takes in, publishes and checks the inner proof's data",
 "A recursion circuit built for an inner degree, number of public inputs and number of pending proofs takes in every value of such a proof unchanged (or refuses values that do not fit both fields), recomputes its first challenges (beta, gamma, alpha, zeta) exactly as the native transcript does, and publishes challenges, openings and pending proofs as public inputs in the declared order. It opens every pending proof's folding polynomial at zeta to the native value. The pending identity of the proof before (permutation, first-row and gate constraint terms, divided by the vanishing polynomial, against the quotient parts it published) is enforced: it determines each quotient part from the rest.",
 I,"every inner degree, number of public inputs and of pending proofs; every proof and published data",
 "The only recursion test builds the circuit and checks nothing of it.",
 ["src/plonk_recursion.rs","src/plonk_proof.rs","src/plonk_challenger.rs"],
 [("public inputs copied from the proof; verify_assumptions; verify_old_proof_evaluation","src/plonk_recursion.rs"),("populate_witness","src/plonk_proof.rs ProofTarget, OpeningSetTarget, OldProofTarget")],["recursive_verification_circuit, ProofTarget::populate_witness, OldProofTarget::populate_witness"])
p("L01","Lookup proofs for genuine subsets always verify",
 "For every table and every list of values all contained in it, with any multiplicities and order, the lookup prover produces a proof and the verifier accepts it for that table. Sizes may be anything from one upward, with the list shorter or longer than the table, and the table may contain zero and repeated values. The polynomials the proof opens as list and table go through exactly those values (followed by values of the table), and the Lagrange basis values used are one at their own node and zero at the others.",
 I,"every table and every sublist/multiset of it, every size",
 "A few fixed sizes are tested.",
 ["plookup/src/plookup.rs","plookup/src/verifier.rs","plookup/src/proof.rs"],
 [("padding, sorting, grand product, quotient","plookup/src/plookup.rs")],["plookup::plookup::prove, plookup::verifier::verify"])
p("L02","A lookup proof is never accepted for a value outside the table or once altered",
 "If some looked-up value is not in the table, the prover fails or its proof is rejected; a proof is rejected for every table other than its own, and after alteration of any of its components. A prover that follows the protocol on false halves, running products, openings or folded generators is rejected too, because every challenge depends on everything sent before it. The verifier rejects malformed lookup proofs with an error.",
 I,"every table, every non-subset list, every other table, every alteration",
 "No test attempts a false lookup.",
 ["plookup/src/plookup.rs","plookup/src/verifier.rs","plookup/src/proof.rs"],
 [("quotient opening and inner-product argument check","plookup/src/verifier.rs")],["plookup::verifier::verify"])
p("L03","Multi-column tables reduce lookups row by row",
 "A table built from a function contains exactly one row per domain element with the function's value in the last column, in domain order. Row-wise and column-wise lookups are provable and accepted for every list of rows of the table, and a list with a row that is not in the table (even if each of its entries appears in its column) is refused or rejected.",
 I,"every function, domain, table width and row list",
 "Two fixed tables are tested, with rows of the table only.",
 ["plookup/src/table.rs"],
 [("random linear combination of columns","plookup/src/table.rs")],["Table"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert len({x["id"] for x in P})==len(P)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
