#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
BP = "bulletproofs/src/"
RE = "relations/src/"

prop("C01", "Honest constraint-system proofs always verify",
 "For every constraint system and every assignment that satisfies it (scalar and vector commitments, multiplications, allocations, linear constraints built with any of the operators, randomized second-phase constraints), the proof made by the honest prover is accepted by a verifier that states the same system on the commitments the prover returned. The prover assigns to every expression the value it denotes, returns exactly the Pedersen commitments of the openings it was given, and refuses with an error when it has fewer generators than the system needs.",
 ["programs", "inputs", "schedules", "fault_sequences"],
 "all programs over the constraint-system interface, all satisfying assignments, all numbers and lengths of vector commitments, all generator counts, all values of the random source, all worker schedules",
 "The tests prove a dozen fixed gadgets with at most a few commitments; a degree, padding or index error shows only for particular numbers of commitments, sizes around powers of two or mixtures of phases.",
 [BP+"r1cs/prover.rs", BP+"r1cs/verifier.rs", BP+"r1cs/linear_combination.rs", BP+"inner_product_proof.rs", BP+"util.rs"],
 [("prover and verifier build the same flattened constraints and polynomials", BP+"r1cs/prover.rs Prover::prove, "+BP+"r1cs/verifier.rs Verifier::verification_scalars_and_points")],
 ["Prover::{commit,commit_vec,eval,prove,metrics,size}", "Verifier::{commit,commit_vec,verify}", "batch_verify"])

prop("C02", "Proofs of false constraint-system statements are never accepted",
 "A verifier accepts a proof only if values that open its commitments satisfy every gate and every linear constraint of the system it states: whatever a prover deviates from (a corrupted assignment, commitments with components an honest prover never uses, changed, missing or additional proof elements, exchanged commitments, a proof made for another statement, label or context), verification returns an error.",
 ["programs", "inputs", "fault_sequences"],
 "all programs, all assignments violating at least one gate or constraint, all tampering with commitments and proof elements by an adversary who does not know discrete logarithms between generators",
 "The tests check a handful of wrong witnesses with the honest prover algorithm; they never run a deviating prover, so a dropped term or check in the verifier goes unseen.",
 [BP+"r1cs/verifier.rs", BP+"r1cs/proof.rs", BP+"inner_product_proof.rs", BP+"transcript.rs"],
 [("final multiscalar equation, shape checks of the proof", BP+"r1cs/verifier.rs"), ("inner product verification scalars", BP+"inner_product_proof.rs")],
 ["Verifier::verify", "batch_verify", "Verifier::verification_scalars_and_points"],
 "Prover::sim_witness, Verifier::sim_circuit, BulletproofGensShare::sim_second_family under cfg(curve_trees_sim)")

prop("C03", "Challenges bind everything that was said before them",
 "Prover and verifier derive identical challenge sequences for an honest proof, and every challenge depends on the context label, every commitment of the statement, every message absorbed by the application and every proof element sent before it. Changing any one of these before a challenge changes that challenge and all later ones, and every point of the proof is absorbed before the scalars that respond to it; in the membership protocol the published rerandomized commitments are among the bound values.",
 ["programs", "inputs", "histories"],
 "all programs and every single change of a statement or proof element, for single proofs, membership proofs and batched membership proofs",
 "Leaving an element out of the transcript leaves every test green, since honest proofs still verify; only comparing challenges under changed inputs shows it.",
 [BP+"transcript.rs", BP+"r1cs/prover.rs", BP+"r1cs/verifier.rs", BP+"inner_product_proof.rs", RE+"single_level_select_and_rerandomize.rs"],
 [("Fiat-Shamir transcript protocol", BP+"transcript.rs TranscriptProtocol")],
 ["merlin::Transcript messages and challenges of both sides (recorded by the patched merlin)"])

prop("C04", "Batch verification accepts exactly when each proof verifies alone",
 "Verifying any list of proofs as one batch succeeds if every proof in it verifies on its own, and fails if at least one does not, whatever the number, sizes and positions of the proofs and however their errors relate to one another, including errors chosen to cancel against each other. An empty batch succeeds, and the verdict does not depend on the order of the proofs.",
 ["inputs", "fault_sequences", "configurations"],
 "all batches of proofs of equal or different sizes, all sets of invalid members with adversarially related errors, all verifier randomness",
 "The tests batch two equal honest proofs; weights that are missing, equal or reused between proofs accept batches whose errors cancel, which no honest batch shows.",
 [BP+"r1cs/verifier.rs"],
 [("independent random weights per proof in the combined equation", BP+"r1cs/verifier.rs batch_verify")],
 ["batch_verify", "Verifier::verification_scalars_and_points"])

prop("C05", "Proofs and paths survive the wire exactly and have one encoding",
 "Encoding a proof, a membership path or a transaction and decoding the bytes gives an equal object that verifies exactly as the original, the announced size is the number of bytes written, and encoding what was decoded reproduces the bytes. This holds through streams that deliver short reads and writes, and a stream that fails or ends early gives an error, never a partial object; a proof has one encoding only: changed, shortened or extended bytes never decode to the original proof (apart from bits the curve library itself ignores when it reads a compressed point: those of a neutral element, and unused ones beside the sign). Compressed encoding is the wire format; batched paths can only be written.",
 ["inputs", "fault_sequences"],
 "all proofs (one and two phases), paths, transactions; all stream faults and truncation points; all changes of bytes",
 "No test serializes through anything but a memory buffer that never fails, and only for one-phase proofs of one size.",
 [BP+"r1cs/proof.rs", BP+"inner_product_proof.rs", RE+"curve_tree.rs", RE+"coin.rs"],
 [("canonical serialization of proofs and paths", BP+"r1cs/proof.rs, "+RE+"curve_tree.rs")],
 ["R1CSProof::{to_bytes,from_bytes}", "CanonicalSerialize/CanonicalDeserialize impls"])

prop("C06", "Hostile bytes and wrong shapes give errors, not panics",
 "Decoding arbitrary bytes as a proof, path or transaction, and verifying whatever proof decodes, singly or in a batch, always terminates with a result in time and memory in proportion to the input: it never panics, aborts or exhausts memory, whatever the lengths, counts, flags, points and scalars in the bytes say. Bytes that do not decode to a valid proof of the verifier's statement are refused.",
 ["inputs", "fault_sequences"],
 "all byte strings, in particular corruptions, truncations, extensions and splices of honest proofs and proofs of any other size than the verifier's circuit",
 "The tests only decode what they encoded; out-of-range lengths and mismatched shapes are reached only by hostile inputs.",
 [BP+"r1cs/proof.rs", BP+"r1cs/verifier.rs", BP+"inner_product_proof.rs"],
 [("length and shape checks before use", BP+"r1cs/verifier.rs, "+BP+"inner_product_proof.rs verification_scalars")],
 ["R1CSProof::from_bytes", "Verifier::verify", "batch_verify"])

prop("C07", "Proofs and commitments reveal nothing and use fresh randomness",
 "Every element a prover publishes other than public inputs is blinded by randomness of its own: no proof element repeats or stays related between runs that differ in their random source, none can be recomputed from the witness and the transcript alone, and the secret data cannot be told from the published elements even by one who knows all but one of the candidate secrets. Within one run no blinding is zero, equal to another, a multiple of another by anything public, or confined to part of the field.",
 ["inputs", "fault_sequences", "histories"],
 "all programs, membership proofs and transactions, all pairs of witnesses, all pairs of random sources, all challenges (provers rewound to give away their randomness)",
 "Dropping or reusing a blinding factor changes no verdict: every proof still verifies, so no test can see it.",
 [BP+"r1cs/prover.rs", BP+"transcript.rs", RE+"curve_tree_prover.rs", RE+"batched_curve_tree_prover.rs", RE+"coin.rs"],
 [("a fresh random scalar for every commitment, mask and coefficient", BP+"r1cs/prover.rs Prover::prove"), ("fresh rerandomization per level", RE+"curve_tree_prover.rs")],
 ["all published elements of proofs, paths and transactions", "blindings and masks recovered from rewound provers' answers"],
 "Prover::sim_witness under cfg(curve_trees_sim), only for rerandomizations sampled without a proof")

prop("C08", "Public parameters are deterministic, extendable and independent",
 "Generators and tree parameters are a fixed function of the curve and the index: the same on every run, machine, schedule and random source, for every capacity, and however the capacity was reached; a larger set extends a smaller one without changing it. All generators of all families, parties, commitment bases and offsets are valid, non-identity, pairwise distinct and derived by hashing, so that no relation between them is known.",
 ["configurations", "inputs", "schedules"],
 "all capacities, party counts and growth histories; all supported curves",
 "Tests build one set of parameters per run and compare only small sets; provers and verifiers that share a wrong derivation agree with each other.",
 [BP+"generators.rs", BP+"util.rs", RE+"single_level_select_and_rerandomize.rs", RE+"lookup.rs", RE+"rerandomize.rs"],
 [("hash-to-curve chains per family and party", BP+"generators.rs"), ("delta and table construction", RE+"single_level_select_and_rerandomize.rs SingleLayerParameters::new")],
 ["BulletproofGens::{new,increase_capacity,share}", "PedersenGens::default", "SelRerandParameters::new"],
 "BulletproofGensShare::sim_second_family under cfg(curve_trees_sim)")

prop("C09", "A tree commits to exactly its list of leaves",
 "The root of a tree, its height and every inner node are a fixed function of the ordered list of leaves, the branching factor, the generators and the requested minimal height: equal lists give equal trees, and changing, adding, removing, reordering or moving a leaf changes the root, also in partially filled trees (a leaf and its mirror image are one leaf, since x-coordinates are committed to). Raising the height of a tree afterwards equals asking for that height at construction and changes no lower node, and the height is the smallest that holds the leaves or the one requested, whichever is larger.",
 ["inputs", "configurations"],
 "all leaf lists of 1 to several hundred leaves with partial nodes, all branching factors and batch sizes, all requested heights, all single edits of the list",
 "The tests build one or two trees with full nodes and never look at an inner node or compare roots.",
 [RE+"curve_tree.rs", RE+"single_level_select_and_rerandomize.rs"],
 [("bottom-up combination of children commitments", RE+"curve_tree.rs CurveTree::from_set, CurveTreeNode::combine")],
 ["CurveTree::{from_set,increase_height,height}", "tree nodes"])

prop("C10", "Every leaf's membership proof verifies",
 "For every tree, every leaf position and every rerandomization the prover draws, the membership proof made by the prover is accepted by a verifier that knows only the tree's root, after any number of proofs share the two proof systems, and the published commitment equals the leaf plus the returned rerandomization times the blinding generator. Proofs for different leaves, made in any order and verified in one batch or separately, all verify.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "all tree heights, branching factors, fill levels, leaf positions, edge rerandomizations, numbers of combined proofs and schedules",
 "The tests prove index 0 of one or two trees; errors in index arithmetic, level parity or rarely met table windows need other indices, heights and scalars.",
 [RE+"curve_tree_prover.rs", RE+"curve_tree_verifier.rs", RE+"single_level_select_and_rerandomize.rs", RE+"rerandomize.rs", RE+"select.rs", RE+"lookup.rs", RE+"curve.rs"],
 [("per-level select and rerandomize gadgets", RE+"curve_tree_prover.rs, "+RE+"single_level_select_and_rerandomize.rs")],
 ["CurveTree::select_and_rerandomize_prover_gadget", "CurveTree::select_and_rerandomize_verifier_gadget"])

prop("C11", "No membership proof for a commitment outside the tree",
 "A verifier that knows the root of a tree accepts a membership proof only if the published commitment is a rerandomization of a leaf of that tree (up to the sign ambiguity inherent in committing to x-coordinates), whatever the prover does: choosing a point that is no child at some level, shifting a rerandomization by a multiple of another generator, mixing branches, levels or trees, shortening or lengthening the path, or presenting an honest proof with another path, root or tree.",
 ["inputs", "fault_sequences", "configurations"],
 "all trees, all deviations at every level, every gadget and every window of the rerandomization, including provers that satisfy all constraints the verifier states with values an honest prover never uses",
 "The tests have no cheating prover at all: an unconstrained variable, a missing range or curve check or a wrong table entry leaves all honest proofs valid.",
 [RE+"single_level_select_and_rerandomize.rs", RE+"select.rs", RE+"rerandomize.rs", RE+"lookup.rs", RE+"curve.rs", RE+"curve_tree_verifier.rs"],
 [("select, curve check and rerandomize constraints per level", RE+"single_level_select_and_rerandomize.rs"), ("path shape check", RE+"curve_tree_verifier.rs")],
 ["CurveTree::select_and_rerandomize_verifier_gadget and the two verifiers"],
 "Verifier::sim_circuit, Prover::sim_witness under cfg(curve_trees_sim)")

prop("C12", "Batched membership proofs of distinct leaves always verify",
 "For every tree built for batches and every tuple of distinct leaf positions, the batched membership proof made by the prover is accepted by a verifier that knows only the roots, and each published commitment is its leaf plus the returned rerandomization times the blinding generator. The batched proof with a single member accepts the same leaves as the plain one.",
 ["inputs", "configurations", "schedules"],
 "all batch sizes, heights, branching factors, tuples of distinct leaf positions, schedules",
 "The tests use one batch size and the first leaves; index, sum and order errors need other tuples.",
 [RE+"batched_curve_tree_prover.rs", RE+"batched_curve_tree_verifier.rs", RE+"single_level_select_and_rerandomize.rs"],
 [("sum of rerandomized children per level", RE+"batched_curve_tree_prover.rs")],
 ["CurveTree::batched_select_and_rerandomize_prover_gadget", "CurveTree::batched_select_and_rerandomize_verifier_gadget"])

prop("C13", "No batched membership proof with a member outside the tree",
 "A verifier accepts a batched membership proof only if every published commitment is a rerandomization of a leaf of the tree (up to sign), whatever the prover does: one foreign member among honest ones, foreign members whose offsets cancel in a sum, exchanged or repeated members, shifted sums, mixed roots, wrong path lengths or an honest proof presented with other members.",
 ["inputs", "fault_sequences", "configurations"],
 "all batch sizes, trees, tuples of members, all deviations at every level and in the sums over members",
 "The tests run no cheating prover; errors that cancel over a batch are invisible to honest proofs.",
 [RE+"batched_curve_tree_verifier.rs", RE+"single_level_select_and_rerandomize.rs", RE+"batched_curve_tree_prover.rs"],
 [("per-member selection and sum rerandomization constraints", RE+"single_level_select_and_rerandomize.rs single_level_batched_select_and_rerandomize")],
 ["CurveTree::batched_select_and_rerandomize_verifier_gadget and the two verifiers"],
 "Verifier::sim_circuit, Prover::sim_witness under cfg(curve_trees_sim)")

prop("C14", "Circuit gadgets accept exactly the relation they name",
 "Each building block (bit test, selection from a list, table lookup, curve membership, incomplete (distinct x) and checked point addition, scalar multiplication by table) is satisfiable for given inputs and outputs exactly when the named relation holds between them, for every input in its stated domain, on curves with any coefficients, and regardless of the values a prover puts into the auxiliary variables.",
 ["inputs", "programs", "fault_sequences"],
 "all inputs including doublings, inverses, neutral elements, first and last positions and boundary scalars; all auxiliary assignments, found by solving the circuit the verifier states",
 "The tests evaluate each gadget on one or two honest inputs; under-constrained auxiliary values and special cases of the addition law are never tried.",
 [RE+"curve.rs", RE+"lookup.rs", RE+"select.rs", RE+"rerandomize.rs"],
 [("gadget constraints", RE+"curve.rs, "+RE+"lookup.rs, "+RE+"select.rs, "+RE+"rerandomize.rs")],
 ["the gadget functions, run on a prover, a verifier and a constraint collector"],
 "Verifier::sim_circuit, Prover::sim_constraints under cfg(curve_trees_sim)")

prop("C15", "Range proofs accept exactly the values in range",
 "The range gadget for n bits is provable for a committed value exactly when the value lies between 0 and 2^n - 1, for every n up to the bit length at which the field wraps around, whatever bits a prover claims. In particular values just outside the range, negative values and values that only fit modulo the field order are refused.",
 ["inputs", "fault_sequences"],
 "all widths, all values including boundaries and field wrap-arounds, all claimed bit assignments",
 "The tests try random in-range values and one out-of-range value at one width.",
 [RE+"range_proof.rs"],
 [("bit decomposition constraints", RE+"range_proof.rs range_proof")],
 ["range_proof on Prover and Verifier"],
 "Verifier::sim_circuit, Prover::sim_witness under cfg(curve_trees_sim)")

prop("C16", "Honest payments go through once the network lets them",
 "An honestly made mint or transaction is accepted by every verifier holding the same tree, whatever coins, amounts, positions and keys it uses, and a coin received in one transaction can be spent in the next with the keys its owner derives. With message loss, duplication, delay, reordering, corruption, crashes and restarts, every honest transaction is accepted by all ledgers within a bounded number of retransmissions after the faults stop, and every ledger that applied the same sequence has the same root.",
 ["inputs", "schedules", "fault_sequences", "crash_points", "histories"],
 "all coins, amounts, positions; all histories of mints and payments among several wallets and ledgers under network and storage faults",
 "The tests make one or two fixed payments in one process, never chain a received coin into the next payment over a network, and never serialize in between.",
 [RE+"coin.rs", RE+"curve_tree.rs"],
 [("coin commitments, tags, rerandomized keys, pour proofs and signatures", RE+"coin.rs")],
 ["Coin::{mint,new,prove_spend,rerandomized_pk}", "prove_pour", "SignedTx::verification_gadget"])

prop("C17", "Payments conserve value, spend only existing coins, and need the keys",
 "A ledger accepts a mint or transaction only if the coins it spends are in the tree, the value of what it creates equals the value of what it spends with every amount in range, each spend is signed over this very transaction with the key of the coin spent, and the keys, tags and commitments in the message are those the proofs were made for. Any change of a message in transit, replaying parts of it in another transaction, or a dishonest payer's choice of amounts, coins, keys or proofs leads to rejection, and spending one coin twice always shows the same tag.",
 ["inputs", "fault_sequences", "histories"],
 "all deviations of a payer and of the network at every field of a transaction, and histories of transactions",
 "The tests contain only honest payments and no cheating payer; removing any one check keeps them green.",
 [RE+"coin.rs"],
 [("balance and range constraints, membership proofs, key rerandomization, signatures over the transaction", RE+"coin.rs Pour::*, SignedTx::*, verify_mint")],
 ["Pour::verification_gadget", "SignedTx::{verification_gadget,verify_signatures}", "verify_mint"],
 "Verifier::sim_circuit, Prover::sim_witness under cfg(curve_trees_sim)")

prop("C18", "Results do not depend on threads, scheduling or what ran before",
 "With a fixed random source, everything the library produces (parameters, trees, proofs, paths, transactions) is the same bytes for every number of worker threads and every interleaving of parallel work, with and without interleaved unrelated work on other threads, in a fresh process or a used one, with or without the crate's threads, and every verifier reaches the same verdict in all of these. Nothing carries over from one operation to the next.",
 ["schedules", "histories", "configurations"],
 "all schedules of the parallel parts, all worker counts, all histories of previous and concurrent operations",
 "Tests run under one operating system schedule per run and compare nothing across schedules; a race or an order-dependent reduction appears rarely.",
 [BP+"r1cs/prover.rs", BP+"r1cs/verifier.rs", BP+"generators.rs", RE+"curve_tree_prover.rs", RE+"coin.rs"],
 [("parallel iterators and join in the libraries and in ark multiscalar multiplication", "rayon")],
 ["bytes of proofs, roots, parameters; verdicts"])

import os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
