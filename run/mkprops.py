import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Expressions denote polynomials",
"Evaluating a constraint expression in any target algebra applies that algebra's constant, query, negation, sum, product and scaling operations exactly along the expression, each operand once and in its place. Over the field the result is the value of the polynomial the expression denotes, where the overloaded operators (negation, addition, subtraction, multiplication, scaling, query) denote the field operations. The reported degree is the degree of that polynomial's formula (sum: maximum, product: sum) in the reported degrees of the queried columns, and a query without a degree is an error.",
["programs","inputs"],"every expression tree, every assignment of values and degrees to queries, every target algebra",
"The tests evaluate a handful of fixed gates; the statement ranges over all trees and all assignments.",
["src/vo/expression.rs"],[("recursive evaluation through caller-supplied operations","Expression::evaluate"),("degree bound by structural recursion","Expression::degree"),("operator overloads build the tree","impl Neg/Add/Sub/Mul/From for Expression")])
p("C02","Gates and lookups resolve to the columns they were assigned",
"Configuring a custom gate or a lookup on a list of witness, instance, fixed and table columns yields the same formula with every relative reference replaced by the label of the column at that index of the list of its kind, its rotation and kind unchanged, and with table references in the declared order. Configuration registers on each referenced column exactly the rotations that refer to it and changes nothing else. A table reference to a witness or instance column is an error, and using a gate or lookup before configuration is an error.",
["programs","configurations"],"every virtual formula, every list of references and every assignment of columns",
"Tests configure a few fixed gates with one column order; index/kind/rotation mix-ups need formulas with several columns of the same kind and non-trivial rotations.",
["src/vo/generic_vo.rs","src/vo/generic_lookup_vo.rs","src/vo/virtual_expression.rs"],[("resolution of relative indices","VirtualExpression::to_expression"),("registration of rotations","GenericVO::configure, GenericLookupVO::configure"),("uninitialised use","get_expression, get_expressions, get_table_queries")])
p("C03","Built-in gates enforce their documented relation",
"Each built-in gate evaluates, on every row and for every assignment of its columns, to its documented relation: the PLONK arithmetic gates (3 and 4 wires), the Rescue round, the arithmetic, multiplication and bitwise-logic gates, and the built-in lookup tuples. In particular the gate is zero exactly on the rows where that relation holds. The references it declares are exactly those its formula uses, so configuration opens every value the gate reads.",
["inputs"],"all values of all columns a gate reads",
"Tests use honest rows only; a dropped term, swapped selector or wrong rotation that vanishes on the sampled rows passes them.",
["src/vo/precompiled","src/vo/precompiled_lookups"],[("gate formulas and declared queries","get_expr_and_queries of every precompiled gate"),("lookup tuples","get_expressions_and_queries")])
p("C04","Rotation means the same shift in every view",
"A column queried with rotation +k or -k at row i of a domain of n rows reads row (i+k) mod n or (i-k) mod n. Its polynomial read on the extended coset at index i is the polynomial at that coset point times w^(+k) or w^(-k), and the opening point the verifier uses is the challenge times the same power of w. The three views hence agree for every rotation, including wrap-around past either end and shifts of more than n.",
["inputs","configurations"],"every rotation, row, domain size and extension factor",
"The tests use rotations 0 and +1 on fixed domains; negative rotations and wrap-around are marked TODO in the code.",
["src/oracles/rotation.rs","src/oracles/traits.rs"],[("row view","query_at_omega_in_original_domain"),("coset view","query_in_coset"),("challenge view","compute_evaluation_point, get_point_info"),("opening points of a column","QuerySetProvider::get_query_set")])
p("C05","Lookup columns are arranged as permutations that sit side by side",
"For inputs and a table of equal length with every input value in the table, the lookup arrangement returns a permutation of the inputs and a permutation of the table in which every row's input either equals the table value on that row or equals the input on the row above, the first row being of the former kind. No value is lost, invented or duplicated, for any multiplicities and order. An input that is not in the table is never silently arranged.",
["inputs"],"all pairs of sequences of field elements of equal length",
"The single test uses one eight-element example.",
["src/lookup/permute.rs"],[("sort and greedy table assignment","permute_for_lookup")])
p("C06","Copy constraints: the permutation argument is exact on both sides",
"The running-product columns the prover builds satisfy every row relation, the chunk-to-chunk links and the boundary values of the permutation argument whenever the copied values respect the permutation, and the number of columns and constraints follows the chunking. On every row the prover's combined constraint equals the specified polynomial of the row's values, and at any challenge the verifier's combined opening equals the same polynomial of the opened values, with the same challenges, chunking, cosets and constraint order.",
["inputs","configurations"],"all column counts, chunk sizes, usable-row counts, values, permutations and challenges",
"Tests cover one permutation on a few columns with honest values only, where the combined constraint is zero whatever its weights.",
["src/permutation/mod.rs","src/permutation/grand_product.rs"],[("running product","GrandProductArgument::construct_agg_poly, PermutationArgument::construct_agg_polys"),("prover side constraints","instantiate_argument_at_omega_i"),("verifier side constraints","open_argument"),("chunk and constraint counts","number_of_z_polys, number_of_alphas")])
p("C07","Lookups: compression and subset argument are exact on both sides",
"The compressed input and table columns of a lookup are the sums of its expressions and of its table columns weighted by the same powers of the compression challenge, on every row, at every coset point and at the opening challenge, for queries of any column kind and rotation. The running-product column satisfies the lookup's boundary and row relations when the arranged columns are permutations of the compressed ones. The prover's combined constraint on every row and the verifier's combined opening are the same specified polynomial of the row's values, in the same constraint order.",
["inputs","configurations","programs"],"all lookup formulas, tables, values and challenges",
"Tests have two lookups of one fixed shape without rotations and honest values only.",
["src/lookup/mod.rs","src/lookup/subset_equality.rs"],[("compression, prover","construct_a_and_s_polys_prover"),("compression, verifier","construct_a_and_s_unpermuted_polys_verifier"),("running product","SubsetEqualityArgument::construct_agg_poly"),("constraints","instantiate_argument_at_omega_i and open_argument of both types")])
p("C08","Every constraint gets its own power of the batching challenge",
"The polynomial divided by the vanishing polynomial is the sum of all gate, copy and lookup constraints, each multiplied by its own distinct power of the batching challenge, so no two constraints can cancel. Prover and verifier assign the same power to the same constraint. No constraint is dropped, duplicated or given weight zero, for any number of gates, copied columns and lookups.",
["configurations","programs"],"all numbers of gates, permutation chunks and lookups",
"Honest witnesses make every constraint zero, so collisions of weights are invisible to completeness tests.",
["src/piop/prover.rs","src/turbo_plonk.rs"],[("prover's combined numerator","prover_quotient_round"),("verifier's combined numerator","TurboPlonk::verify"),("numbers of weights","PermutationArgument::number_of_alphas")])
p("C09","The quotient is sized to fit and is the exact division",
"Indexing a circuit yields a quotient degree that bounds the degree of the combined constraint polynomial after division, an extended domain with room for every coefficient of the quotient, and the values of the inverse vanishing polynomial on its coset. Consequently the committed quotient pieces recombine to exactly the combined constraints divided by the vanishing polynomial whenever the constraints hold. A circuit for which no size fits is an error, not a wrong proof.",
["configurations","programs"],"all gate degrees, domain sizes, lookups, permutation shapes and vanishing polynomials",
"Tests use few fixed degrees, for which rounding up to a power of two hides off-by-one errors.",
["src/indexer.rs","src/util.rs","src/piop/prover.rs"],[("quotient degree","Indexer::compute_quotient_degree"),("extended domain and inverse values","Indexer::compute_zh_evals, compute_vanishing_poly_over_coset"),("splitting","prover_quotient_round"),("recombination","TurboPlonk::verify")])
p("C10","Batched openings accept exactly the claimed evaluations",
"A batched opening proof produced for any set of committed polynomials, each opened at any set of rotations of the challenge, is accepted together with the true evaluations. It is rejected when any claimed evaluation, commitment, set of opening points or number of batched evaluations differs. The combined claim the verifier checks is the combination the prover opened: groups by opening points, weighted by consecutive powers of the first challenge inside a group and of the second across groups.",
["inputs","configurations"],"all families of polynomials and rotation sets, all challenges and tamperings",
"The only test opens four fixed polynomials honestly.",
["src/multiproof/piop/mod.rs","src/multiproof/piop/prover.rs","src/multiproof/piop/verifier.rs"],[("grouping and combination, prover","prover_first_round, prover_second_round, prover_third_round"),("combined check","Multiopen::verify")])
p("C11","Interpolation basis and vanishing polynomials are exact",
"For any distinct points the computed basis polynomials are one at their own point and zero at the others, with degree below the number of points. The computed vanishing polynomial is monic, has degree the number of points and is zero exactly at them. Inverse vanishing values on a coset are the inverses of the vanishing polynomial's values there, in order.",
["inputs"],"all lists of distinct points, all domains and cosets",
"Only exercised indirectly with two or three points.",
["src/multiproof/poly.rs","src/util.rs"],[("basis","construct_lagrange_basis"),("vanishing polynomial","construct_vanishing"),("coset values","compute_vanishing_poly_over_coset")])
p("C12","Challenges depend on everything sent before them",
"Every challenge is derived by hashing the protocol name, the public inputs, and every commitment and claimed evaluation sent before it, in order: changing any absorbed byte changes the seed of every later challenge. Absorbing folds the new input together with the whole previous state. Prover and verifier absorb the same messages in the same order and draw the same challenges.",
["histories","inputs"],"all transcripts and all changes of one message",
"Honest runs agree whatever is left out of the transcript; only a changed message shows an omission.",
["src/rng.rs","src/turbo_plonk.rs","src/multiproof/piop/mod.rs","src/piop/verifier.rs"],[("seed update","FiatShamirRng::initialize, absorb"),("message order","TurboPlonk::prove and verify, Multiopen::prove and verify"),("drawing challenges","verifier_*_round")])
p("C13","Commitment arithmetic mirrors polynomial arithmetic",
"Scaling, adding, negating and multi-scaling commitments, and the corresponding operations on hiding randomness, give the commitment and the randomness of the scaled, added, negated and combined polynomial. Combining with no terms gives the commitment of zero; zero and equality tests on commitments decide equality. This holds for every scalar, including zero and one, and for hiding and non-hiding commitments.",
["inputs"],"all polynomials, scalars, randomness and numbers of terms",
"One test checks one scalar on one polynomial.",
["src/commitment.rs"],[("homomorphic operations","HomomorphicCommitment for KZG10")])
p("C14","A column keeps and reports exactly what was put into it",
"A prover-side column reports the label, polynomial, row values, extended values and rotations it was built with or registered, before and after any other registration; a verifier-side column answers a query with the evaluation registered for that very point, and refuses a point or commitment that was never registered. Row values and the polynomial of a column agree on the domain. Registering one item never alters another, and copies are independent of their originals.",
["histories","inputs"],"all sequences of constructions, registrations and queries",
"No test reads a column back.",
["src/oracles/witness.rs","src/oracles/fixed.rs","src/oracles/instance.rs","src/data_structures.rs"],[("prover oracles","Witness/Fixed/InstanceProverOracle"),("verifier oracles","Witness/Fixed/InstanceVerifierOracle"),("evaluation maps","register_eval_at_challenge, query")])
p("C15","The verifier checks every value it uses at the point it uses it",
"Every claimed evaluation the verifier substitutes into a constraint belongs to the column and rotation that constraint names, and is part of the batch that is checked against that column's commitment at the corresponding rotated challenge. Public-input columns are evaluated by the verifier itself. Claimed evaluations are consumed in the order in which the prover produced them, with none missing, left over or shared between columns.",
["programs","configurations","inputs"],"all circuits and all claimed evaluations",
"Honest proofs verify no matter which value an evaluation is compared with; only a proof with one false value shows a gap.",
["src/turbo_plonk.rs","src/util.rs","src/oracles/traits.rs","src/piop/verifier.rs"],[("evaluation order","evaluate_query_set, TurboPlonk::prove and verify"),("opening points","QuerySetProvider::get_query_set, PIOPforPolyIdentity::get_query_set"),("batched check","Multiopen::verify")])
p("C16","Rows past the usable ones are blinded with fresh randomness",
"In every running-product column of the permutation and lookup arguments and in every permuted lookup column, the rows past those the argument constrains are filled with fresh, independent random elements, and no others are. The usable rows hold exactly the values the argument prescribes. The blinding never changes whether an honest proof is accepted.",
["inputs","configurations"],"all domain sizes, usable-row counts and random streams",
"Tests do not look at those rows, and a proof without blinding verifies as well.",
["src/permutation/grand_product.rs","src/permutation/mod.rs","src/lookup/mod.rs","src/lookup/subset_equality.rs"],[("blinded rows","construct_agg_poly, construct_agg_polys, construct_a_and_s_polys_prover")])
p("C17","Malformed proofs are rejected with an error",
"A proof whose parts have the wrong number of commitments, evaluations, quotient pieces or batched evaluations, or whose values are arbitrary, makes verification return an error. Verification of attacker-supplied proof data never panics and never accepts such a proof. Errors from lower layers are passed on, never swallowed.",
["inputs","fault_sequences"],"all proof contents of any shape",
"Tests only verify honest proofs.",
["src/turbo_plonk.rs","src/multiproof/piop/mod.rs"],[("length checks","check_len, TurboPlonk::verify"),("batched opening checks","Multiopen::verify"),("missing evaluations","query of verifier oracles")])
p("C18","The mock prover reports exactly the broken rows",
"The mock prover succeeds on exactly the witnesses for which every gate is zero on every row of the domain, reading rotated values with wrap-around. It does not depend on randomness, commitments or keys. When a gate does not hold on some row it fails, naming a gate and a row on which that gate is not zero.",
["inputs","programs"],"all gates, witnesses, public inputs and fixed columns, on every row of the domain",
"The mock prover has no tests of its own.",
["src/mock_prover.rs"],[("row by row evaluation","MockProver::prove")])
p("C19","Accepted means satisfied, satisfied means accepted",
"For every circuit within the documented limits, a proof made from a witness that satisfies all gates, copy constraints and lookups is accepted. A proof made by running the prover's algorithm on a witness that violates any of them on any constrained row, or verified against other public inputs, fixed columns or another circuit than it was made for, is not accepted (except with negligible probability). The verifier's acceptance condition is the combined constraint identity at the opening challenge plus the batched opening.",
["programs","inputs","configurations"],"all circuits within the limits, all witnesses and public inputs",
"The end-to-end tests use four fixed circuits with satisfying witnesses only.",
["src/turbo_plonk.rs","src/piop","src/indexer.rs","src/data_structures.rs"],[("proof generation","TurboPlonk::prove"),("acceptance condition","TurboPlonk::verify"),("preprocessing","ProverPreprocessedInput::new, Indexer::index")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
