#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that long JSON lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CO="crates/ragu_core/src/"; AR="crates/ragu_arithmetic/src/"; MA="crates/ragu_macros/src/"; PR="crates/ragu_primitives/src/"; CI="crates/ragu_circuits/src/"; PC="crates/ragu_pcd/src/"

p("M01","Optional witness values act as exactly-present or exactly-absent",
 "When witness values are present, every way of building, fallibly building, transforming, chaining, borrowing, mutating, duplicating or regrouping them (pairs, longer tuples, fixed-size arrays, in every arity) yields exactly the contained values in their original positions, runs each supplied closure exactly once and propagates its error unchanged. When witness values are absent, no supplied closure is ever run, no error is ever produced, and the same operations succeed vacuously.",
 ["inputs","histories"],"all operation sequences up to a depth over present/absent values, all tuple arities and positions, all closure outcomes",
 "Unit tests exercise a handful of single operations and a few arities; positions inside a regrouped tuple and sequences of operations are unbounded combinations.",
 [CO+"maybe/mod.rs",CO+"maybe/always.rs",CO+"maybe/empty.rs",CO+"maybe/cast.rs",MA+"proc/maybe_cast.rs"],
 [("present/absent implementations",CO+"maybe/always.rs, maybe/empty.rs"),("tuple regrouping code generation",MA+"proc/maybe_cast.rs"),("array regrouping",CO+"maybe/cast.rs")])

p("M02","Generated gadget code treats every field exactly once, in order",
 "For every well-formed gadget structure, the generated code clones and converts each field exactly once into the same-named field, enforces equality between two instances on every wire and nested gadget pairwise (and on nothing else), serializes every field that is not marked skipped or phantom exactly once in declaration order, and enforces the internal consistency of every nested gadget. The type-level naming shorthand denotes the same type as the spelled-out form. Structures that mix annotations on one field, or that are not plain named-field structures, are rejected at compile time.",
 ["programs"],"all gadget structure shapes up to a number of fields over the alphabet of field kinds, annotations and generics spellings",
 "The repository's macro tests compare a few expansions textually or compile a few structures; the property quantifies over all structure definitions users write.",
 [MA+"derive/gadget.rs",MA+"derive/gadgetwrite.rs",MA+"derive/consistent.rs",MA+"proc/kind.rs",MA+"substitution.rs",MA+"helpers.rs"],
 [("derive code generators",MA+"derive/"),("kind macro",MA+"proc/kind.rs"),("driver parameter substitution",MA+"substitution.rs")])

p("M03","256-bit literals denote exactly the written integer",
 "A 256-bit integer literal written in any supported base, with any digit grouping, denotes the array of four 64-bit limbs, least significant first, of exactly that integer. Literals that do not fit in 256 bits or are not integer literals are rejected at compile time.",
 ["inputs","programs"],"all literals over bit-position, limb-boundary and base/underscore alphabets up to and beyond 2^256",
 "Tests sample a few literals; each limb/bit boundary and base is a separate path.",
 [MA+"proc/repr.rs",MA+"lib.rs"],[("literal parser and limb splitter",MA+"proc/repr.rs")])

p("A01","Number-theoretic transforms and domains compute exact evaluations",
 "For every power-of-two evaluation domain the forward transform of a coefficient vector is exactly the list of its polynomial's evaluations at the successive powers of the domain generator, and the inverse transform inverts it; this also holds for transforms of group elements. The domain generator has exactly the stated order, membership testing accepts exactly the domain's elements, halving a domain yields the domain of half the size, and the Lagrange basis values at any point outside the domain are the exact Lagrange basis values, while points inside the domain are reported as such.",
 ["inputs","configurations"],"all coefficient vectors and evaluation points of small fields for every domain size; all basis vectors for larger ones",
 "Tests use random vectors for two sizes; the property is for every size, input vector and evaluation point, including points inside the domain.",
 [AR+"domain.rs",AR+"fft.rs"],[("domain arithmetic",AR+"domain.rs"),("butterfly network",AR+"fft.rs")])

p("A02","Polynomial helper routines agree with their mathematical definitions",
 "Polynomial evaluation, inner products, division by a linear factor (materialized or streamed), geometric sums and construction of a polynomial from its roots agree with their definitions for every length (including zero) and every argument, including zero and unit arguments; inner products of sequences of different lengths are refused.",
 ["inputs"],"all vectors up to a length over small fields, all arguments",
 "Tests sample random points and a few lengths; degenerate lengths and arguments are separate branches.",
 [AR+"util.rs"],[("eval/dot/factor/geosum/poly_with_roots",AR+"util.rs")])

p("A03","Multi-scalar multiplication is exact",
 "Multi-scalar multiplication equals the sum of the individual products for every number of terms and all scalars and points (including zero scalars, identity points and repeated or opposite points), batch conversion to affine form preserves every element in order including the identity, and short commitments under fixed generators equal the corresponding sum.",
 ["inputs"],"all scalar/point vectors up to a length on tiny curves, window-size boundary lengths and digit-boundary scalars on the real curves",
 "Tests compare a handful of random lengths; window-boundary digits, identity inputs and coincident points are special cases of the algorithm.",
 [AR+"util.rs",AR+"lib.rs"],[("bucketed multi-exponentiation","mul in "+AR+"util.rs"),("batch_to_affine",AR+"util.rs"),("short_commit",AR+"lib.rs")])

p("A04","Symbolic coefficients and linear expressions denote exact field arithmetic",
 "Every product, sum and conversion of symbolic coefficients denotes the corresponding field element. Every linear expression built through any sequence of adding, subtracting, scaling, and extending terms denotes the corresponding linear combination under every driver-provided accumulator, with scaling applying exactly to the terms added after it.",
 ["histories","inputs"],"all expression-building sequences up to a depth over all coefficient variants and small fields",
 "Tests sample single operations; the scaling state makes the result depend on the whole history of the expression.",
 [AR+"coeff.rs",CO+"drivers/linexp.rs"],[("coefficient algebra",AR+"coeff.rs"),("linear expression accumulators",CO+"drivers/linexp.rs")])

p("A05","The 136-bit endoscalar integer behaves as an exact 136-bit integer",
 "The wide unsigned integer type behaves exactly as a 136-bit unsigned integer: conversions from machine integers are exact, bitwise and, or and shifts (by any amount, including zero, word multiples and amounts beyond the width) give the mathematically exact truncated result, equality is numeric equality, random values lie in range, and the textual form shows the exact value.",
 ["inputs","histories"],"all sequences of operations up to a depth over bit-boundary values and all shift amounts",
 "The type has no tests; limb-crossing shifts and normalization after several operations need enumeration.",
 [AR+"uendo.rs"],[("limb arithmetic and normalization",AR+"uendo.rs")])

p("A06","Curve cycle parameters are mutually consistent",
 "For both curves of the cycle the fixed generators are valid, non-identity and pairwise distinct curve points whose derivation is deterministic and whose prefix does not depend on how many are requested, and each permutation parameter set has an invertible (indeed maximum-distance-separable) linear layer, full round-constant coverage, an exponent coprime to the field's multiplicative order, and exactly the constants of the documented reference generation.",
 ["configurations"],"every generator up to the supported number and every parameter of both permutation instances",
 "Tests only touch the first generators through end-to-end runs.",
 ["crates/ragu_pasta/src/lib.rs","crates/ragu_pasta/src/poseidon_fp.rs","crates/ragu_pasta/src/poseidon_fq.rs"],
 [("generator derivation","crates/ragu_pasta/src/lib.rs"),("round constants","crates/ragu_pasta/src/poseidon_*.rs")])

p("C01","Every driver synthesizes the same computation",
 "For every circuit program, the same code gives the same result under every execution strategy: simulation, wired and wireless emulation, metric collection, trace recording and every symbolic evaluation see the same allocations, gates, constraints and values, errors raised by witness closures surface unchanged, and emulation that has no witness never runs witness code. A routine's predicted output always equals the output of executing it.",
 ["programs","inputs"],"all driver-operation programs up to a length, including nested routines, over small fields and all inputs",
 "Tests compare drivers on a few fixed circuits; the guarantee is for every circuit users write.",
 [CO+"drivers/emulator.rs",CO+"drivers.rs",CO+"routines.rs",PR+"simulator.rs",CI+"trace.rs",CI+"metrics.rs"],
 [("emulators",CO+"drivers/emulator.rs"),("simulator",PR+"simulator.rs"),("trace evaluator",CI+"trace.rs")])

p("C02","Gadget conversions preserve every wire",
 "Converting a gadget between drivers maps each of its wires exactly once and in a fixed order through the supplied conversion, keeps its witness values, propagates the first conversion error, and conversions that clone, strip or collect wires produce exactly the wires and values of the source in the same order. Equality enforcement between two gadgets constrains exactly their corresponding wires.",
 ["programs","fault_sequences"],"all nestings of gadget constructors (pairs, arrays, vectors, boxes, unit) up to a depth, and a failing conversion at every wire position",
 "Tests convert a few gadgets; order and failure at each position are not covered.",
 [CO+"convert.rs",CO+"gadgets.rs",CO+"gadgets/foreign.rs",PR+"vec.rs",PR+"promotion.rs"],[("wire maps",CO+"convert.rs"),("foreign gadget implementations",CO+"gadgets/foreign.rs")])

p("P01","Field-element gadgets are complete and sound",
 "Each field-element operation (allocation, constants, sums, differences, scaling, products, squares, quotients, inverses, zero and equality tests, powers, folds and linear combinations) accepts an honest witness for every input where it is defined and computes the defined result, and its constraints admit no assignment with any other result; where it is undefined (inverting zero) no assignment satisfies it or an error is reported.",
 ["inputs"],"all inputs and all assignments to every auxiliary wire over small fields",
 "Unit tests run the honest prover on sampled inputs; soundness quantifies over all malicious assignments.",
 [PR+"element.rs"],[("gate and constraint layout of each operation",PR+"element.rs")])

p("P02","Boolean gadgets are complete and sound",
 "Boolean allocation admits exactly zero and one; negation, conjunction, disjunction and exclusive-or style combinations, conditional selection and conditional enforcement, zero tests and packing of bit sequences into field elements compute exactly their truth tables or packed values for every input length, and no other outputs satisfy their constraints.",
 ["inputs"],"all bit assignments, all selected values, all packing lengths over small fields, and all auxiliary assignments",
 "Tests run honest witnesses of some combinations.",
 [PR+"boolean.rs"],[("boolean constraints",PR+"boolean.rs")])

p("P03","Curve-point gadgets are complete and sound",
 "Point allocation and constants admit exactly non-identity curve points; doubling, incomplete addition, combined double-and-add, endomorphism, negation and their conditional forms compute the group law for every input within their documented preconditions and no other output satisfies their constraints, and inputs outside those preconditions are never accepted with a result other than what is documented.",
 ["inputs"],"all pairs of points and all auxiliary assignments on tiny curves",
 "Tests sample random points of the large curve where exceptional cases never occur.",
 [PR+"point.rs"],[("incomplete addition formulas",PR+"point.rs")])

p("P04","Endoscalar extraction, lifting and in-circuit scaling agree",
 "The in-circuit extraction of an endoscalar from a challenge, its lifting to a field element and its multiplication with a curve point agree with the corresponding native computations for every challenge, and scaling by an endoscalar equals multiplication by its lift. The bits extracted from a challenge are determined by the challenge alone, so that no other assignment of extracted bits satisfies the constraints.",
 ["inputs"],"all single-bit, double-bit and boundary bit patterns of the 128-bit endoscalar and all challenge boundary values; all auxiliary assignments to each constraint of the extraction",
 "Tests sample random challenges; the boundary values and the uniqueness of the decomposition are not reachable by sampling.",
 [PR+"endoscalar.rs"],[("extraction, lifting and scaling",PR+"endoscalar.rs")])

p("P05","The in-circuit sponge equals the native sponge for every usage",
 "For every sequence of absorbing, squeezing, saving and resuming, the in-circuit sponge produces exactly the values of a reference duplex sponge over the same permutation, the permutation computes the reference permutation for all inputs, its output is uniquely determined by its input, and resuming a saved state continues exactly where the saved sponge would have; saving in a mode that does not permit it is refused.",
 ["histories","inputs"],"all operation sequences up to a depth around the rate boundary, all small-field states",
 "Tests run fixed short sequences; boundary-crossing sequences and save/resume points are a combinatorial space.",
 [PR+"poseidon.rs"],[("sponge mode machine",PR+"poseidon.rs")])

p("P06","Collections and serialization preserve content, order and length",
 "Fixed-length collections hold exactly their declared number of elements and refuse any other number; serialization of any nesting of gadgets emits each element in order exactly once to any sink including piped transformations; demoted gadgets promote back to the same gadget with the supplied values; and consistency enforcement is applied to every contained element.",
 ["inputs","programs"],"all lengths around the declared one, all nestings up to a depth",
 "Tests cover single lengths and nestings.",
 [PR+"vec.rs",PR+"io.rs",PR+"io/",PR+"promotion.rs",PR+"consistent.rs"],[("fixed vector",PR+"vec.rs"),("write sinks",PR+"io.rs"),("promotion",PR+"promotion.rs")])

p("R01","All evaluation strategies of a wiring polynomial agree",
 "For every circuit the wiring polynomial evaluated fully at a point, restricted to its first variable then evaluated, and restricted to its second variable then evaluated give the same value at every pair of points including zero and one, and that value is the one defined by the circuit's gates and constraints in order.",
 ["programs","inputs"],"all circuits up to a number of driver operations over a small field, at every pair of points",
 "Tests compare a few circuits at random points.",
 [CI+"s/sxy.rs",CI+"s/sx.rs",CI+"s/sy.rs",CI+"s/common.rs",CI+"raw.rs",CI+"metrics.rs",CI+"floor_planner.rs"],
 [("three evaluators",CI+"s/"),("shared layout",CI+"floor_planner.rs, raw.rs")])

p("R02","The circuit identity holds exactly for satisfying assignments",
 "For every circuit and witness, the recorded trace satisfies the revdot identity against the wiring polynomial and public-input polynomial for every challenge if the assignment satisfies all gates and constraints and the public inputs are the circuit's outputs, and fails for almost every challenge (no more than the degree bound) otherwise.",
 ["programs","inputs"],"all circuits up to a number of operations and all assignments over a small field, at every challenge",
 "Tests check honest witnesses at random challenges.",
 [CI+"trace.rs",CI+"polynomials/",CI+"s/",CI+"ky.rs"],[("trace assembly",CI+"trace.rs"),("public input polynomial",CI+"ky.rs"),("tz/txz polynomials",CI+"polynomials/txz.rs")])

p("R03","Sparse polynomials behave as dense polynomials",
 "Every sequence of operations on structured sparse polynomials (construction from structured views, scaling, addition, subtraction, negation, dilation, folding, evaluation, reversal-products, commitment, random masking of unused structure) has the same effect as on the dense coefficient vectors they denote.",
 ["histories","inputs"],"all operation sequences up to a depth over all block layouts at a small rank",
 "Tests check single operations with proptest samples; block merging and splitting depends on the layout history.",
 [CI+"polynomials/sparse/mod.rs",CI+"polynomials/sparse/view.rs",CI+"polynomials/mod.rs"],[("block representation",CI+"polynomials/sparse/mod.rs"),("view to polynomial",CI+"polynomials/sparse/view.rs")])

p("R04","A registry binds each circuit to its position and the digest to all",
 "A registry built from any registrations places internal circuits, bonding circuits, internal steps and application steps in that fixed order regardless of the order of registering across categories, evaluates at each position's domain point to exactly that circuit, agrees across all of its partial and full evaluations, reports domain membership exactly, and its digest is deterministic and changes whenever any circuit or the circuit order changes. Registration beyond the representable number is refused.",
 ["configurations","inputs"],"all registration sequences up to a length over an alphabet of circuits, all evaluation points at small sizes",
 "Tests build a few registries.",
 [CI+"registry.rs"],[("builder and domain placement",CI+"registry.rs")])

p("R05","Staging confines each stage to its own gates and bonds them exactly",
 "For every stage layout, a stage's partial trace occupies exactly its own gates, the stage mask accepts a partial trace exactly when it is confined there, a final trace check accepts exactly the remaining gates, stage polynomials combine additively to the full circuit's trace, and the stage's values enter the circuit in serialization order with padding zeros. Bonding circuits accept exactly assignments satisfying the bonding constraints and refuse definitions that use multiplication or constants.",
 ["configurations","inputs"],"all chains of stages with sizes up to a bound, every coefficient position, every single-position deviation",
 "Tests cover a few layouts and random positions.",
 [CI+"staging/mod.rs",CI+"staging/builder.rs",CI+"staging/mask.rs",CI+"staging/bonding.rs"],[("stage allocation",CI+"staging/builder.rs"),("mask polynomials",CI+"staging/mask.rs"),("bonding validator",CI+"staging/bonding.rs")])

p("R06","Circuit capacity limits are enforced exactly",
 "A circuit that fits in the configured number of gates and constraints is always accepted, and one that exceeds either by even one is always refused with an error naming the limit; counts reported for a circuit equal what its synthesis consumes.",
 ["programs","configurations"],"all gate/constraint counts around each limit",
 "Tests check few sizes; off-by-one sits at the boundary.",
 [CI+"lib.rs",CI+"metrics.rs",CI+"trace.rs"],[("bound checks",CI+"lib.rs")])

p("R07","Parallel execution never changes results",
 "Circuit traces, transforms, multi-scalar multiplications and everything else computed with optional parallelism yield the same result under every order in which the spawned tasks may run and any number of worker threads, including the same result as without parallelism.",
 ["schedules"],"all execution orders of spawned tasks for circuits with up to several routine calls (including nested), and all worker counts",
 "Tests run whatever schedule the thread pool happens to choose.",
 [CI+"trace.rs",AR+"multicore.rs",AR+"fft.rs",AR+"util.rs",CI+"registry.rs"],[("segment assembly",CI+"trace.rs"),("parallel helpers",AR+"multicore.rs")])

p("D01","Honestly produced proof-carrying data always verifies",
 "Every proof produced by any history of seeding, fusing (including fusing a proof with itself and mixing proofs of different depth and step types) and rerandomizing verifies, and carries exactly the data computed by the step that produced it.",
 ["histories"],"all fusing trees up to a depth over a set of step kinds",
 "Tests run a single small tree.",
 [PC+"lib.rs",PC+"fuse/",PC+"verify.rs",PC+"proof/mod.rs",PC+"proof/trivial.rs"],[("fuse pipeline",PC+"fuse/"),("verifier",PC+"verify.rs")])

p("D02","A proof altered in any checked component is rejected",
 "Altering the claimed data, the step identity, the header content, any trace, commitment, challenge or folded value that the verifier is documented to check, or splicing components of two valid proofs, makes verification report false or an error, never acceptance.",
 ["fault_sequences"],"every component of a proof crossed with every alteration of an alphabet",
 "Tests alter a handful of components.",
 [PC+"verify.rs",PC+"proof/components.rs"],[("verification claims",PC+"verify.rs, internal/native/claims.rs, internal/nested/claims.rs")],hook="guarded access to proof components")

p("D03","Header encoding is canonical, injective and uniform",
 "A header's encoding consists of its data in order, zero padding and a type-distinguishing suffix at a fixed position for every data length that fits, headers that do not fit are refused, different header types never encode alike, and the encoding presented to a circuit does not depend on which header type or step position is used.",
 ["configurations","inputs"],"all data lengths around the limit, all header sizes up to a bound, all suffixes",
 "Tests cover one header size.",
 [PC+"header.rs",PC+"step/encoder.rs",PC+"step/internal/padded.rs",PC+"step/internal/adapter.rs"],[("padding and suffix",PC+"step/internal/padded.rs"),("encodings",PC+"step/encoder.rs")],hook="guarded access to internal encoders")

p("D04","Step registration discipline is enforced",
 "Steps are accepted only in consecutive order of their declared indices and with header types whose suffixes are never shared by different types, every violating registration is refused and leaves the builder unusable or unchanged but never misnumbered, and each accepted step keeps the same circuit position independent of how many other steps are registered after it.",
 ["histories","configurations"],"all registration histories up to a length over an alphabet of steps and headers",
 "Tests check three violations.",
 [PC+"lib.rs",PC+"step/mod.rs",PC+"header.rs"],[("builder checks",PC+"lib.rs"),("index mapping",PC+"step/mod.rs")])

p("D05","Native and in-circuit transcripts derive the same challenges",
 "For every sequence of absorbing elements, points and domain tags, squeezing challenges, and saving and resuming, the protocol transcript derives the same challenges natively and in-circuit, depends on every absorbed item and its order, and separates transcripts with different domain tags of any length.",
 ["histories"],"all operation sequences up to a depth; all tag lengths around chunk boundaries",
 "Tests run one fixed sequence.",
 [PC+"internal/transcript.rs"],[("transcript",PC+"internal/transcript.rs")],hook="guarded access to the internal transcript")

p("D06","Two-layer folding of inner-product claims is exact",
 "For all claim vectors and folding challenges, the two-layer folding of inner-product claims yields a folded claim that is the exact inner product of the folded polynomials whenever the claims are true, the in-circuit computation of the folded value equals the native one, and a false claim is folded into a true one for no more challenges than the degree bound.",
 ["inputs","configurations"],"all group counts and sizes up to a bound, all claim values and challenges over a small field",
 "Tests fold random vectors for fixed sizes.",
 [PC+"internal/fold_revdot.rs"],[("fold and error terms",PC+"internal/fold_revdot.rs")],hook="guarded access to internal folding")

p("D07","Endoscaled commitment accumulation is exact",
 "The sequence of endoscaling step circuits computes exactly the Horner combination of its input points with the endoscalar, for every number of points, and its stages accept only consistent intermediate points.",
 ["inputs","configurations"],"all numbers of points up to a bound, endoscalar boundary values, every intermediate point altered",
 "Tests cover fixed sizes with random scalars.",
 [PC+"internal/endoscalar.rs",PC+"internal/nested/"],[("points witness and step circuits",PC+"internal/endoscalar.rs")],hook="guarded access to internal endoscaling")

p("D08","Rerandomization preserves the statement and hides the proof",
 "Rerandomizing any valid proof-carrying data any number of times yields proof-carrying data with the same data that verifies, can be used wherever the original can, and differs from the original in its randomized components: every stage and trace polynomial it commits to is blinded with randomness of its own, so that no commitment of a rerandomized proof is determined by the original and the challenges.",
 ["histories"],"all interleavings of fusing and rerandomizing up to a depth",
 "Tests rerandomize one or two proofs.",
 [PC+"lib.rs",PC+"step/internal/rerandomize.rs"],[("rerandomization step",PC+"step/internal/rerandomize.rs")])

p("D09","Invalid proof-carrying data cannot be laundered",
 "Fusing or rerandomizing proof-carrying data that does not verify because its data, header type, trace, commitments or accumulated claims are wrong never yields proof-carrying data that verifies, however much valid data it is combined with and however many levels are built on it; neither does a step whose witness does not satisfy its circuit, which misstates its children's headers or its output data, nor a proof that was made by a different application. (Proof-carrying data with the trivial header () asserts nothing, and two such children are where recursion starts: those are not examined.)",
 ["histories","fault_sequences"],"every alteration of an alphabet in either child, every lie of a set of steps, then every way of building on the result up to a depth",
 "Tests only verify what was altered directly, or fuse honest proofs.",
 [PC+"fuse/",PC+"lib.rs",PC+"verify.rs",PC+"internal/native/"],[("accumulation",PC+"fuse/"),("header and data binding",PC+"internal/native/, step/internal/")],hook="guarded access to proof components")

p("D10","The recursion circuits accept exactly what a child's verification demands",
 "The constraint systems of the internal recursion circuits bind their instance and stages to what they verify: for all assignments, every challenge is the transcript's, every child instance evaluation is that of the child's own values, child circuit identifiers lie in the registry domain, folded claims and the combined evaluation are exactly the documented ones (no query or claim missing, each with its own power), claims are free only when both children are trivial, points are on the curve; satisfying values are never refused, and the application registers exactly these circuits for its size.",
 ["inputs","states"],"instances and stage values of each circuit, folding challenges, all circuit identifiers of every domain size, both children's header suffixes",
 "Tests run the circuits on honest witnesses only; a missing constraint or query leaves every honest proof valid.",
 [PC+"internal/native/circuits/",PC+"internal/native/stages/",PC+"internal/native/unified.rs",PC+"internal/fold_revdot.rs",PC+"internal/native/mod.rs"],[("recursion circuits",PC+"internal/native/circuits/"),("instance layout",PC+"internal/native/unified.rs, stages/preamble.rs")],hook="guarded access to the internal circuits")

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
