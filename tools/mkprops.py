#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here in a form that is easy to edit)."""
import json, os
G='ip_proofs/src/gipa.rs'; T='ip_proofs/src/tipa/mod.rs'; S='ip_proofs/src/tipa/structured_scalar_message.rs'
A='ip_proofs/src/applications/groth16_aggregation.rs'; K='ip_proofs/src/applications/poly_commit/mod.rs'; R='ip_proofs/src/applications/poly_commit/transparent.rs'
P='sipp/src/lib.rs'; N='sipp/src/rng.rs'; I='inner_products/src/lib.rs'
D='dh_commitments/src/lib.rs'; DA='dh_commitments/src/afgho16/mod.rs'; DI='dh_commitments/src/identity/mod.rs'; DP='dh_commitments/src/pedersen/mod.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p('C01','GIPA verification accepts only if all three base openings hold',
 "For every commitment key, commitment triple and proof, generalized inner-product-argument verification returns Ok(true) only if the proof's final left message opens the folded left commitment under the folded left key, its final right message opens the folded right commitment under the folded right key, and the inner product of those two final messages opens the folded inner-product commitment under the inner-product key. "
 "The folded commitments start from the commitments the caller passed and absorb both cross terms of every round of the proof (first term times the challenge, second times its inverse), and the folded keys are computed by the verifier from the caller's full keys, never taken from the proof.",
 ['inputs'],'every key, commitment triple and (adversarial) proof',
 'The tests only verify honestly generated proofs of size 8; dropping or weakening any of the conjuncts still accepts every honest proof, so no happy-path run notices.',
 [G],[('GIPA::verify','%s verify'%G),('recursive challenge/commitment folding',G),('base commitment check',G)],['GIPA::verify'])
p('C02','TIPA verification checks both final keys and all three openings',
 "For every verifier key, commitment triple, shift and proof, TIPA verification (with or without shift) returns Ok(true) only if both claimed final commitment keys pass their KZG opening checks (left key against the inverted challenges and the inverted shift, right key against the challenges unshifted, both at the challenge point derived in this run) and the final messages and their inner product open the three folded commitments under those same final keys and the caller's inner-product key. "
 "The commitments are folded from the ones the caller passed using every round of the proof.",
 ['inputs'],'every verifier key, commitments, shift and (adversarial) proof',
 'Tests verify only honest proofs; every conjunct is true on them, so removing or weakening one is invisible.',
 [T,G],[('TIPA::verify_with_srs_shift',T),('verify_recursive_challenge_transcript',G)],['TIPA::verify','TIPA::verify_with_srs_shift'])
p('C03','Structured-scalar verifiers recompute the final scalar and check openings',
 "For every input and proof, the structured-scalar-message verifiers (GIPA and TIPA flavours) return Ok(true) only if the final left message opens the folded left commitment under the verified final key and the inner product of that message with the scalar recomputed by the verifier opens the folded inner-product commitment. "
 "That scalar is the product over all rounds j of (1 + x_j^-1 * b^(2^j)), where x_j are the verifier's own challenges (last round first) and b is the caller's scalar; it is never taken from the proof. "
 "The TIPA flavour additionally requires the KZG opening of the final key (inverted challenges, no shift) to hold.",
 ['inputs'],'every key, commitment pair, scalar and (adversarial) proof',
 'Tests only run honest proofs of one size, on which every check is true and the proof-supplied scalar equals the recomputed one.',
 [S,G,T],[('GIPAWithSSM::verify_with_structured_scalar_message',S),('TIPAWithSSM::verify_with_structured_scalar_message',S)],['GIPAWithSSM','TIPAWithSSM'])
p('C04','Groth16 aggregate verification requires all three checks',
 "Aggregate Groth16 verification returns Ok(true) only if (1) the TIPA proof verifies for exactly (com_a, com_b, ip_ab) of the aggregate proof with the shift r, (2) the structured-scalar proof verifies for exactly (com_c, agg_c) with scalar r, and (3) ip_ab equals e(alpha^(sum r^i), beta) + e(aggregated inputs, gamma) + e(agg_c, delta) for the given verifying key, where r is the verifier's own hash of com_a, com_b, com_c and the number of aggregated statements is the number of public-input vectors.",
 ['inputs'],'every verifying key, list of public inputs and (adversarial) aggregate proof',
 'No test exercises the aggregation module at all; even an honest-run test would not notice a missing conjunct.',
 [A],[('verify_aggregate_proof',A)],['verify_aggregate_proof'])
p('C05','Polynomial-commitment verification ties both tiers together',
 "For every input and proof, bivariate polynomial-commitment verification (KZG-based and transparent) returns Ok(true) only if the outer argument verifies for the given commitment and the proof's intermediate commitment at the x coordinate, and the inner argument verifies for that same intermediate commitment at the y coordinate with exactly the claimed evaluation. "
 "Plain KZG verification returns Ok(true) only if e(com - g*eval, h) = e(proof, h_alpha - h*point). "
 "Univariate verification delegates to the bivariate one for the same commitment, evaluation and proof, with y = point and x = point^(y_degree+1).",
 ['inputs'],'every commitment, point, claimed evaluation and (adversarial) proof',
 'Tests only check honest openings; an omitted tier, an unbound evaluation or an unbound point accepts all honest proofs.',
 [K,R],[('KZG::verify',K),('BivariatePolynomialCommitment::verify',K),('BivariatePolynomialCommitment::verify',R),('UnivariatePolynomialCommitment::verify',K)],['KZG::verify','BivariatePolynomialCommitment::verify','UnivariatePolynomialCommitment::verify'])
p('C06','SIPP verification accepts only the folded pairing equation',
 "For every input, SIPP verification returns Ok(true) only if e(sum_i s_i r_i a_i, sum_i s_i^-1 b_i) equals claimed_value + sum_j (x_j z_l,j + x_j^-1 z_r,j), where x_j is the challenge the verifier itself derived for round j, every round of the proof and every one of the n elements of a, b and r takes part, and s_i is the product of the x_j over those rounds j in which index i lies in the upper half.",
 ['inputs'],'every a, b, r, claimed value and (adversarial) proof',
 'The only SIPP test verifies one honest proof of length 32; it cannot tell which terms of the equation an adversary controls.',
 [P],[('SIPP::verify',P)],['SIPP::verify'])
p('C07','Final-key KZG openings check the right polynomial at the right point',
 "The two final-commitment-key opening checks return Ok(true) only if, respectively, e(g, ck - h*v) = e(g_beta - g*z, opening) and e(ck - g*v, h) = e(opening, h_alpha - h*z), where z is the given challenge point and v is the product over all transcript entries x_j of (1 + x_j (z^2 r)^(2^j)). "
 "The prover commits to the quotient by (X - z) of the polynomial whose coefficient vector expands exactly that product (2^k coefficients, interleaved with zeros), minus its value v at z, so coefficient form and product form are the same polynomial for every number of rounds and every shift.",
 ['inputs'],'every transcript length and content, shift, challenge point, key and opening',
 'Tests use one transcript length (3) and honest openings only; a wrong sign/power that cancels there, or an equation that ignores an argument, is not observable.',
 [T],[('verify_commitment_key_g2_kzg_opening',T),('verify_commitment_key_g1_kzg_opening',T),('prove_commitment_key_kzg_opening',T)],['verify_commitment_key_g2_kzg_opening','verify_commitment_key_g1_kzg_opening'])
p('C08','Prover and verifier derive identical Fiat-Shamir challenges',
 "In every protocol (GIPA, TIPA, both structured-scalar variants, Groth16 aggregation, SIPP), for every honest run the verifier derives from the proof exactly the challenge the prover used, in every round and after every retry: the same transcript items in the same order and encoding, the same retry counter, the same bytes of the digest and the same conversion to a scalar.",
 ['inputs'],'every statement, size and digest, including runs where a challenge is re-drawn',
 'Re-draws never happen in tests and the aggregation protocol is never run; a prover/verifier divergence in those paths (or one for other sizes/digests) is not reached.',
 [G,T,S,A,P,N],[('challenge loops in prover and verifier',G),('KZG challenge loops',T),('KZG challenge loops',S),('r challenge',A),('FiatShamirRng use',P)],['*::prove','*::verify'])
p('C09','Every Fiat-Shamir challenge binds everything exchanged before it',
 "Every round challenge is a digest of an unambiguous serialization that includes the previous round's challenge and all cross-term commitments of the current round; the first challenge of an argument also binds its public statement (the claimed commitments, and the public scalar of the structured-scalar variants); the final KZG challenge additionally binds the last round challenge and every claimed final key; the aggregation challenge binds com_a, com_b, com_c and the public inputs; and SIPP's challenges bind a, b, r and the claimed value and then every round's two elements before the challenge of that round is drawn. "
 "The digest covers each item completely and challenge derivation reads only values already fixed at that moment.",
 ['inputs','histories'],'every statement and every (adversarial) choice of later messages',
 'Honest prover and verifier stay in agreement when both omit an item from the hash, so every test passes while forgery becomes possible.',
 [G,T,S,A,P],[('hash_input construction',G),('hash_input construction',T),('hash_input construction',S),('hash_input construction',A),('rng seed / absorb',P)],['challenge derivation'])
p('C10','Challenges are invertible, full-width and re-drawn correctly',
 "Every challenge used by a prover or verifier carries at least 128 bits of the digest (or the field's own full-width sampling), is - wherever the inverse of a challenge is used - paired with that challenge's true multiplicative inverse, and when a candidate is rejected the retry counter that is part of the hashed input changes, so the re-draw hashes a different input and derivation terminates with the first acceptable candidate.",
 ['inputs'],'every digest output, including those that force a re-draw',
 'A zero or out-of-range candidate has probability about 2^-128 under a real digest, so the retry path never executes in a test; truncating the digest does not fail any honest run.',
 [G,T,S,A,P],[('challenge loops',G),('KZG challenge loops',T),('r challenge loop',A),('x derivation',P)],['challenge derivation'])
p('C11','GIPA prover folding matches what verifiers fold',
 "In every round, for every even-length vector pair, the GIPA prover commits to the two cross terms, folds both message vectors and both key vectors with the challenge or its inverse, and records the challenge, such that commitments of the folded messages under the folded keys equal (first cross commitment * challenge) + previous commitment + (second cross commitment * inverse challenge) for the left, right and inner-product commitments alike. "
 "The verifier's closed-form final keys weigh key element i by exactly the product of the per-round factors the prover's folding applies to position i, and recorded rounds and challenges are published last round first.",
 ['inputs'],'every vector length 2^k, message, key and challenge',
 'Tests run a single size (8); properties of the fold for all lengths, and of the closed form for all indices, are not established by one size.',
 [G],[('_prove',G),('_compute_recursive_challenges',G),('_compute_final_commitment_keys',G)],['GIPA::prove_with_aux','GIPA::verify'])
p('C12','SIPP prover folding matches the verifier equation',
 "In every SIPP round the prover sends z_l = prod e(a_right, b_left) and z_r = prod e(a_left, b_right) over the current halves, folds a to a_left + x*a_right and b to b_left + x^-1*b_right with the challenge x of that round, starts from a_i * r_i, and halves the length until one element is left, so that the pairing product of the folded vectors changes exactly by x*z_l + x^-1*z_r.",
 ['inputs'],'every vector length 2^k, k >= 1, all elements and challenges',
 'The single test covers one length.',
 [P],[('SIPP::prove',P)],['SIPP::prove'])
p('C13','Length mismatches are rejected, never truncated',
 "Every inner product (pairing, multiexponentiation, scalar) returns an error when its two vectors differ in length, in release builds too and for every pair of lengths; consequently the pairing- and multiexponentiation-based commitments reject a key whose length differs from the message, and no public inner-product, commitment or SIPP operation that takes two vectors silently computes over the shorter of them.",
 ['inputs'],'every pair of lengths, including empty vectors',
 'Tests try one mismatching length for three commitment types only, in one direction; zip-style truncation elsewhere and for other directions is not exercised.',
 [I,D,DA,DP,P],[('InnerProduct::inner_product length guards',I),('commit',DA),('commit',DP),('assertions in SIPP',P)],['InnerProduct::inner_product','DoublyHomomorphicCommitment::commit','SIPP::*'])
p('C14','Pairing products cover every pair for any thread count',
 "The multi-threaded pairing products equal the sum of e(left_i, right_i) over all indices (with left_i scaled by its coefficient where coefficients are given), for every vector length, every number of worker threads, and with or without the parallel feature: no pair is dropped, duplicated or matched with a different index at chunk boundaries, and the final exponentiation is applied exactly once to the product of all Miller loops.",
 ['inputs','schedules','configurations'],'every vector length (including not divisible by the thread count and smaller than it), thread count and feature set',
 'Tests use lengths 8 and 32 on one machine with one thread count; chunk remainders for other length/thread combinations are never reached.',
 [I,P],[('cfg_multi_pairing',I),('product_of_pairings_with_coeffs',P),('product_of_pairings',P)],['cfg_multi_pairing','PairingInnerProduct','product_of_pairings'])
p('C15','GIPA proving refuses false statements and bad sizes',
 "The checked GIPA prover returns a proof only if the claimed inner product equals the inner product of the two messages, the message length is a power of two, and all three commitments it was given are openings of the left message, the right message and the claimed inner product under the respective keys; otherwise it returns an error.",
 ['inputs'],'every claimed value, message pair, key and commitment triple',
 'Tests call the prover only with true statements.',
 [G],[('GIPA::prove',G)],['GIPA::prove'])
p('C16','Commitments are complete, position-wise and homomorphic',
 "For every key and message of equal length, the Pedersen commitment is sum_i key_i * m_i, the AFGHO commitments are sum_i e(message, key) with the G1 operand first, and the identity commitment is the whole message vector in order, so commitments are additive and scale with scalars in both message and key; output addition and scalar multiplication act on every component, and verification returns true exactly when recomputing the commitment gives the claimed value.",
 ['inputs'],'every key, message, scalar and claimed commitment',
 'Tests check one message and one wrong message per scheme; homomorphism and completeness in every position are universally quantified.',
 [D,DA,DI,DP,I,'ip_proofs/src/lib.rs'],[('DoublyHomomorphicCommitment::verify',D),('commit',DA),('commit',DP),('IdentityOutput Add/MulAssign',DI),('inner products',I)],['DoublyHomomorphicCommitment'])
p('C17','Generated commitment keys are independent random draws of the right number',
 "Transparent commitment-key setup returns exactly the requested number of generators, each drawn by its own fresh sampling from the caller's randomness source, with no element derived from another, from a constant, or re-used between the left, right and inner-product keys.",
 ['inputs','histories'],'every size and randomness source state',
 'Binding breaks when generators are related, but every commit/verify/prove test still passes with repeated or related generators.',
 [D,DA,DP,DI,G,S,R],[('random_generators',D),('setup',DA),('setup',DP),('GIPA::setup',G)],['DoublyHomomorphicCommitment::setup','GIPA::setup'])
p('C18','Structured reference strings are well formed',
 "Every structured setup draws its two trapdoors by independent fresh sampling and returns powers g^(alpha^i) for i = 0..n-1 and h^(beta^i) for i = 0..m-1 with the documented lengths (2*size-1 for TIPA and its structured-scalar variant, degree+1 for KZG, 2*x_degree+1 and y_degree+1 for the bivariate scheme), together with g^beta and h^alpha from those same trapdoors and generators. "
 "Extracted commitment keys are the even-indexed powers (left key from the h^(beta^i), right key from the g^(alpha^i)) and the verifier key consists of the zeroth powers plus the same g^beta and h^alpha.",
 ['inputs'],'every size/degree and randomness source state',
 'Tests build one size; a wrong count or mixed-up trapdoor can cancel out or show only for other sizes, and correlated trapdoors are never visible to honest runs.',
 [T,S,K],[('TIPA::setup',T),('TIPAWithSSM::setup',S),('KZG::setup',K),('BivariatePolynomialCommitment::setup',K),('SRS::get_commitment_keys / get_verifier_key',T),('structured_generators_scalar_power',T)],['setup functions','SRS'])
p('C19','Setup trapdoors never leave setup in the clear',
 "The secret scalars drawn during a structured setup are full-size field elements and reach the outside only as exponents of group elements: they (and any value they could be computed from without a discrete logarithm, such as their powers) are never returned, stored in a public parameter, logged, written or passed to any other observable sink, and they come from the caller's randomness source only, never from a constant or a hash of public data.",
 ['inputs'],'every setup function and every run',
 'Leaking a trapdoor destroys soundness without changing any honest behaviour.',
 [T,S,K],[('TIPA::setup',T),('TIPAWithSSM::setup',S),('KZG::setup',K),('BivariatePolynomialCommitment::setup',K)],['setup functions'])
p('C20','Polynomials are committed and opened in full or rejected',
 "Committing to or opening a polynomial that exceeds what the commitment key supports (degree in y, number of y-polynomials, or total univariate degree) never succeeds on a truncated polynomial: the call fails before any commitment or opening is produced. "
 "For supported polynomials every coefficient takes part, shorter ones being padded with zeros at the high end only.",
 ['inputs'],'every polynomial degree and key size',
 'Tests use polynomials of exactly the supported degree.',
 [K,R],[('KZG::commit / KZG::open',K),('BivariatePolynomialCommitment::commit/open',K),('bivariate_form',K),('bivariate_form',R)],['poly_commit commit/open'])
p('C21','Malformed or minimal-size inputs are handled, not crashed on',
 "A proof whose number of rounds does not match the keys (too few, too many or none) makes GIPA, structured-scalar GIPA and SIPP verification (against keys or statement vectors whose length is a power of two, at least 2 for SIPP) return an error or false and never panic, after work at most linear in the key and the proof size (never exponential in the number of rounds the proof claims); TIPA-style proving and verification handle the smallest instance (one element, zero rounds) without panicking, and the degree split of the univariate schemes is defined for every degree including 0.",
 ['inputs'],'every round count, key size >= 1 and degree >= 0',
 'Tests only feed well-formed proofs of size 8 and one degree.',
 [G,T,S,P,K,R],[('round-count check',G),('transcript.first()',T),('transcript.first()',S),('proof length check',P),('bivariate_degrees',K)],['GIPA::verify','TIPA::verify','SIPP::verify'])
p('C22','Errors of sub-checks never turn into acceptance or a proof',
 "Whenever any fallible step inside a public prover, verifier, committer or opener fails (length mismatch, serialization failure, failed inner argument, missing element), the public call itself returns an error (or panics) - it never returns Ok, never substitutes a default, and a sub-verification that returned false is never reported as true.",
 ['inputs'],'every failing sub-step of every public operation',
 'Failure paths of inner steps are almost never taken in tests, so swallowing an error is invisible.',
 [G,T,S,A,K,R,D,DA,DP,P],[('? propagation and &&-combination of results',G),('? propagation',T),('? propagation',S),('? propagation',A),('? propagation',K)],['all public Result-returning functions'])
p('C23','Proof copies and encodings are faithful and validated',
 "Cloning a proof, structured reference string or auxiliary value yields the same value field by field, and the canonical encoding of proofs covers every data field in the same order for writing, reading, sizing and validity checking, with decoding honouring the caller's compression and validation modes for every field.",
 ['inputs'],'every proof value and every compression/validation mode',
 'No test serializes or clones a proof.',
 [G,T,S,DI],[('impl Clone for GIPAProof/TIPAProof/TIPAWithSSMProof',G),('derived CanonicalSerialize/CanonicalDeserialize',T)],['Clone','CanonicalSerialize','CanonicalDeserialize'])
p('C24','The Fiat-Shamir generator chains its entire history',
 "The Fiat-Shamir generator's state after seeding is determined by a digest of the whole seed, after every absorb by a digest covering all newly absorbed bytes and the whole previous digest, and its output stream is restarted from that digest on every absorb; every output method draws from that stream and fills all requested bytes, and nothing else changes the state.",
 ['histories','inputs'],'every sequence of seed, absorb and read operations',
 'The prover and the verifier use the same generator, so a generator that forgets history passes every round-trip test.',
 [N],[('FiatShamirRng::from_seed',N),('FiatShamirRng::absorb',N),('RngCore impl',N)],['FiatShamirRng'])
p('C25','Results are deterministic and independent of scheduling',
 "Proving, verifying, committing and opening are functions of their arguments only: they draw no randomness, read no clock, environment, thread identity or mutable global, and the number of worker threads can influence only how work is split, never a returned value; the only randomness anywhere is the caller-supplied source passed to setup (or the transcript-seeded generator in SIPP), and parallel closures share no mutable state.",
 ['schedules','inputs','configurations'],'every thread count and interleaving',
 'A test run sees one schedule and one thread count.',
 [G,T,S,A,K,R,P,I],[('rayon pipelines',I),('rayon pipelines',P),('rng parameters',D)],['all public functions'])
p('C26','Univariate polynomials are mapped to the matching bivariate statement',
 "For every degree and key, the univariate schemes split the coefficient vector row by row into (x_degree+1) polynomials of y_degree+1 coefficients each in order, use one and the same (x_degree, y_degree) - as encoded in the key sizes - in commit, open and verify, and evaluate at y = point and x = point^(y_degree+1), so that the bivariate evaluation equals the univariate one; setup creates a key that encodes exactly the split chosen for the requested degree, whose capacity is at least degree+1.",
 ['inputs'],'every degree, polynomial and evaluation point',
 'Tests use one degree per scheme (with a particular branch of the degree split).',
 [K,R],[('bivariate_degrees / parse_bivariate_degrees_* / bivariate_form',K),('bivariate_degrees / parse_bivariate_degrees_* / bivariate_form',R)],['UnivariatePolynomialCommitment'])
p('C27','Groth16 aggregation uses every public input with its weight',
 "In aggregate verification the coefficient of each verifying-key input element i+1 is sum_j r^j * public_inputs[j][i] over all statements j, and that of element 0 (and of alpha) is sum_j r^j; a public-input vector whose length does not match the verifying key, in any statement, makes verification fail instead of being ignored or truncated.",
 ['inputs'],'every number of statements, public-input lengths and values',
 'No test calls aggregate verification.',
 [A],[('verify_aggregate_proof',A),('structured_scalar_power',S)],['verify_aggregate_proof'])
p('C28','Aggregation and opening provers feed the argument the verifier checks',
 "The Groth16 aggregator and the polynomial-commitment openers run the inner argument on exactly the statement the verifier reconstructs: messages scaled by r^i with the left key scaled by r^-i and shift r for A and B, unscaled C with the powers of r for the structured-scalar argument, powers of x (of y) for the polynomial openings, keys extracted from the same reference string as the commitments, and the published commitments, aggregates and intermediate commitment being those of the vectors that were proven.",
 ['inputs'],'every batch of proofs / polynomial / point / key size',
 'The aggregator is never run by a test, and the openers are run at one size only.',
 [A,K,R],[('aggregate_proofs',A),('BivariatePolynomialCommitment::open',K),('BivariatePolynomialCommitment::open',R),('KZG::open',K)],['aggregate_proofs','open'])
p('C29','No unsafe code and no hidden global state in the libraries',
 "The library crates contain no unsafe block, unsafe function, unsafe trait implementation, raw-pointer dereference, static mutable item, interior-mutable global or transmute, in any feature configuration, so memory safety and thread safety hold for every input and schedule by the type system.",
 ['inputs','schedules','configurations'],'every input, schedule and feature set',
 'Undefined behaviour and data races need not show up in any given test run.',
 [G,T,S,A,K,R,P,N,I,D,DA,DI,DP],[('forbid(unsafe_code) in sipp; absence elsewhere',P)],['all crates'])
p('C30','Arithmetic of the underlying curve library and hardness assumptions',
 "Field, group and pairing operations of the curve library satisfy the algebraic laws (bilinearity, group and field axioms), and the discrete-log, q-type and collision-resistance assumptions hold for the instantiated curve and digest.",
 ['inputs'],'all group and field elements; all adversaries',
 'Universally quantified algebra and computational assumptions are not testable.',
 ['Cargo.toml'],[('arkworks dependencies','Cargo.toml')])
p('C31','End-to-end knowledge soundness of the argument systems',
 "No efficient adversary can make any verifier accept a false statement except with negligible probability.",
 ['inputs','histories'],'every efficient adversary',
 'A computational statement about all adversaries.',
 [G,T,S,A,K,R,P],[('protocol design',G)])
p('C32','Verification cost is logarithmic and proving cost quasi-linear',
 "TIPA verification time grows logarithmically, and GIPA/SIPP verification and all proving linearly or quasi-linearly, with the vector length.",
 ['inputs'],'every size',
 'Asymptotic running time is a runtime quantity; tests run one size.',
 [G,T,P],[('benches',"benches/")])
p('C33','Honestly generated proofs are accepted',
 "For every supported size, every message, key, scalar, polynomial and point - including zero, repeated and otherwise degenerate values - and also when challenge candidates have to be re-drawn, a proof produced by an honest prover on a true statement is accepted by the matching verifier: GIPA, TIPA (with and without a nonzero shift), both structured-scalar variants, Groth16 aggregation of valid proofs, SIPP, KZG and the bivariate and univariate polynomial commitments (KZG-based and transparent).",
 ['inputs'],'every supported size, statement and digest output',
 'Tests run one size per protocol with random values and never the aggregation protocol; special values, other sizes and re-drawn challenges are not reached.',
 [G,T,S,A,K,R,P],[('prove / verify pairs',G),('prove / verify pairs',T),('prove / verify pairs',S),('aggregate_proofs / verify_aggregate_proof',A),('commit / open / verify',K),('commit / open / verify',R),('prove / verify',P)],['*::prove','*::verify','aggregate_proofs','verify_aggregate_proof','open'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x)+'\n')
import re
for x in props: assert len(x['title'])<=80,(x['id'],len(x['title']))
