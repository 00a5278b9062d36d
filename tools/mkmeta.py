"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; the results are committed)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "cpp/include/gatl/ga/"


def P(id, title, statement, over, text, why, files, mech, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


PROPS = []
ALLV = "every real coefficient, every operand shape (compile-time, run-time and mixed basis blades, dense grades, scalars, integral coefficients) and every algebra of the listed ones"
W = "The tests evaluate fixed literal multivectors in a few algebras; they sample single points of a space of polynomial identities in up to 64 coefficients and never vary the operand shape."

P("P01", "Geometric product is the Clifford product of the declared signature",
  "For any two multivectors, gp(x, y) and x * y have exactly the components of the associative Clifford product of the algebra's metric signature (positive, negative and null directions): every component of the result equals the bilinear combination of the operands' coefficients with the reordering and metric signs, and no component is missing or duplicated with another value.",
  ["inputs", "configurations"], "For " + ALLV + " (Euclidean, homogeneous, Minkowski, plane-based, signed metrics with p, q, r up to total dimension 6).", W,
  [I + "core/geometric_product.hpp", I + "core/orthogonal_metric_mapping.hpp", I + "core/real_metric_space.hpp", I + "core/clifford_expression.hpp", I + "core/arithmetic_operators.hpp", I + "core/expression.hpp"],
  [("canonical reordering sign and orthogonal metric sign of basis blades", I + "core/real_metric_space.hpp"), ("product of components and of sums of components", I + "core/geometric_product.hpp"),
   ("binary operators", I + "core/arithmetic_operators.hpp"), ("compile-time simplification of products", I + "core/expression_simplification_product_values.hpp")])
P("P02", "Outer product is the exterior algebra's product",
  "For any two multivectors, op(x, y) and x ^ y have exactly the components of the exterior product: independent of the metric, graded, associative, and zero for linearly dependent vectors.",
  ["inputs", "configurations"], "For " + ALLV + ", including degenerate and non-orthogonal metrics.", W,
  [I + "core/outer_product.hpp", I + "core/exterior_product_mapping.hpp", I + "core/arithmetic_operators.hpp"],
  [("exterior mapping of component pairs", I + "core/exterior_product_mapping.hpp"), ("outer product", I + "core/outer_product.hpp")])
P("P03", "Regressive product is the dual of the outer product",
  "For any two multivectors, rp(x, y) has exactly the components of the regressive product of the space (the outer product of complements with respect to the unit pseudoscalar, complemented back); in particular the pseudoscalar is its unit and blades that together do not span the space vanish.",
  ["inputs", "configurations"], "For " + ALLV + ".", W,
  [I + "core/regressive_product.hpp", I + "core/regressive_product_mapping.hpp"],
  [("regressive mapping of component pairs", I + "core/regressive_product_mapping.hpp")])
P("P04", "Inner products are the grade parts of the geometric product",
  "Left and right contractions, dot product, Hestenes inner product and scalar product of any two multivectors equal, component by component, the grade parts |s-r|, s-r, r-s and 0 of the geometric products of their grade-r and grade-s parts, with the usual conventions for scalars.",
  ["inputs", "configurations"], "For " + ALLV + ", orthogonal and non-orthogonal.", W,
  [I + "core/left_contraction.hpp", I + "core/right_contraction.hpp", I + "core/dot_product.hpp", I + "core/hestenes_inner_product.hpp", I + "core/scalar_product.hpp", I + "core/mapping.hpp"],
  [("grade selection of graded products", I + "core/left_contraction.hpp"), ("graded mapping", I + "core/mapping.hpp"), ("scalar product", I + "core/scalar_product.hpp")])
P("P05", "Products in non-orthogonal metrics follow the metric matrix",
  "In spaces whose basis vectors are not orthogonal (conformal model, arbitrary constant metric matrix), the geometric product and every metric product agree, component by component, with the Clifford algebra of the symmetric bilinear form given by the metric matrix: for vectors u v + v u = 2 u.v, and products of blades follow by associativity.",
  ["inputs", "configurations"], "For every coefficient, operand shape and basis blade of the conformal spaces and of general metric matrices (indefinite, degenerate, null pairs).", W,
  [I + "core/general_metric_mapping.hpp", I + "model/conformal/metric_space.hpp", I + "model/general/metric_space.hpp", I + "core/rules.hpp"],
  [("general metric mapping of component pairs", I + "core/general_metric_mapping.hpp"), ("conformal metric", I + "model/conformal/metric_space.hpp"), ("metric matrix", I + "model/general/metric_space.hpp")])
P("P06", "Addition, subtraction, negation and scaling act component-wise",
  "Sums, differences, negations, scalar multiples and scalar quotients of multivectors have, for every basis blade, exactly the corresponding combination of the operands' coefficients; like terms merge into one value, compile-time cancellations do not change the result.",
  ["inputs", "configurations"], "For every coefficient value and every combination of operand shapes (constants, unit blades, run-time blades, dense and sparse sums).", W,
  [I + "core/expression_simplification_addition_components.hpp", I + "core/expression_simplification_addition_values.hpp", I + "core/arithmetic_operators.hpp", I + "extra/arithmetic_operators.hpp", I + "core/clifford_expression.hpp"],
  [("merging of components", I + "core/expression_simplification_addition_components.hpp"), ("merging of values", I + "core/expression_simplification_addition_values.hpp"), ("operators", I + "core/arithmetic_operators.hpp")])
P("P07", "Lazy evaluation equals eager evaluation",
  "An expression built from the arguments of a lazy context and evaluated by the context has, for every basis blade, the value of the same expression evaluated eagerly on the original arguments: the symbolic simplifications performed at compile time never change a result.",
  ["inputs", "programs"], "For every coefficient of the arguments, and a family of expression programs over sums, products, reversions, inversions, norms and duals with repeated, constant and run-time arguments.",
  "The tests compare lazy and eager results of a few expressions at literal arguments; a wrong rewriting rule shows only for expression shapes or signs of arguments that they do not contain.",
  [I + "core/lazy_context.hpp", I + "core/expression.hpp", I + "core/expression_relational_operators.hpp", I + "core/expression_simplification_product_values.hpp", I + "core/expression_simplification_addition_values.hpp", I + "core/expression_simplification_power.hpp", I + "core/expression_graded_unary_minus.hpp"],
  [("evaluation of the simplified expression", I + "core/lazy_context.hpp"), ("simplification rules", I + "core/expression_simplification_product_values.hpp"), ("ordering of factors and terms", I + "core/expression_relational_operators.hpp")])
P("P08", "Run-time basis blades behave as the compile-time ones",
  "A multivector built from basis vectors whose indices are known only at run time gives, in every operation, the result that the same basis vectors with compile-time indices give.",
  ["inputs"], "For every coefficient and every tuple of run-time indices of the space, equal or different, in any order.",
  "The tests use single run-time indices in a handful of products; coincidences between run-time blades, and their combination with compile-time ones, are not sampled.",
  [I + "core/clifford_expression.hpp", I + "util/basis_vector.hpp", I + "util/basis_blade.hpp", I + "core/expression.hpp", I + "core/real_metric_space.hpp"],
  [("dynamic basis blades", I + "core/clifford_expression.hpp"), ("run-time signs", I + "core/expression.hpp"), ("run-time components in sums", I + "core/expression_simplification_addition_components.hpp")])
P("P09", "Reversion, grade involution and conjugation are the graded sign changes",
  "reverse(x), involute(x), conjugate(x) and ~x multiply the grade-k part by (-1)^(k(k-1)/2), (-1)^k and (-1)^(k(k+1)/2) for every grade present, leave everything else alone, and are involutions and (anti)automorphisms of the geometric product.",
  ["inputs", "configurations"], "For every coefficient, operand shape and grade, with grades known at compile time or only at run time.", W,
  [I + "core/reversion.hpp", I + "core/involution.hpp", I + "core/conjugation.hpp", I + "core/expression_graded_unary_minus.hpp", I + "core/rules.hpp"],
  [("sign-change rules", I + "core/rules.hpp"), ("graded unary minus", I + "core/expression_graded_unary_minus.hpp")])
P("P10", "Grade queries and grade extraction",
  "take_grade(x, k) is exactly the grade-k part of x for k known at compile time or at run time, including grades that do not exist; grade(x, tol) is k when every coefficient above the tolerance has grade k, and the undefined or mixed marker when none or several grades do; largest_grade and take_largest_grade select the highest grade with a coefficient above the tolerance.",
  ["inputs"], "For every coefficient, tolerance >= 0 and grade value.", W,
  [I + "extra/grade.hpp", I + "extra/take_grade.hpp"],
  [("grade and largest grade", I + "extra/grade.hpp"), ("grade part", I + "extra/take_grade.hpp")])
P("P11", "Dualisation is contraction onto the pseudoscalar and is inverted by undual",
  "dual(x) is the left contraction of x onto the inverse pseudoscalar, undual(x) the left contraction onto the pseudoscalar, and each undoes the other in every non-degenerate space; the versions with an explicit pseudoscalar do the same relative to the given blade.",
  ["inputs", "configurations"], "For every coefficient and operand shape in Euclidean, homogeneous, Minkowski, conformal and signed spaces.", W,
  [I + "extra/dualization.hpp", I + "util/pseudoscalar.hpp"],
  [("dual and undual", I + "extra/dualization.hpp"), ("unit pseudoscalar", I + "util/pseudoscalar.hpp")])
P("P12", "Reverse norm, inverse, quotient and unit are mutually consistent",
  "rnorm_sqr(x) is the scalar part of x times its reverse and rnorm(x) its square root; for every versor with non-zero norm inv(x) is the two-sided inverse, igp(x, y) and x / y equal x times inv(y), and unit(x) is a positive multiple of x with reverse norm of magnitude one.",
  ["inputs", "configurations"], "For every coefficient with a non-zero norm, both signs of the norm, every operand shape and algebra.",
  "The tests check few literal blades; the sign of the norm, the sign of scalars and the compile-time simplification of square roots and quotients vary with the operand's shape and values.",
  [I + "extra/reverse_norm.hpp", I + "extra/versor_inverse.hpp", I + "extra/inverse_geometric_product.hpp", I + "extra/unit.hpp", I + "core/expression_simplification_power.hpp"],
  [("reverse norm", I + "extra/reverse_norm.hpp"), ("versor inverse", I + "extra/versor_inverse.hpp"), ("inverse geometric product", I + "extra/inverse_geometric_product.hpp"), ("powers", I + "core/expression_simplification_power.hpp")])
P("P13", "Versor application is the sandwich product",
  "apply_even_versor(V, x) = V x inv(V), apply_odd_versor(V, x) = V involute(x) inv(V) and apply_rotor(R, x) = R x reverse(R), component by component; for versors this keeps the grade of x and its scalar products, and reflections and rotations compose as the versors multiply.",
  ["inputs", "configurations"], "For every coefficient of the versor with non-zero norm and of the argument.", W,
  [I + "extra/apply_versor.hpp", I + "extra/versor_inverse.hpp"],
  [("sandwich products", I + "extra/apply_versor.hpp")])
P("P14", "The exponential of a blade",
  "exp(B) of a blade B equals the sum of the power series: cosine and sine terms when B squares to a negative number, hyperbolic ones when it squares to a positive number, and 1 + B when it squares to zero (up to the tolerance); the result times the exponential of -B is one.",
  ["inputs", "configurations"], "For every coefficient of the blade, in each of the three classes of squares, and every algebra.",
  "The tests exponentiate a few literal bivectors; the branch boundaries, null and time-like blades, and blades of grades other than two are not sampled.",
  [I + "extra/blade_exponential.hpp", I + "core/math.hpp"],
  [("blade exponential", I + "extra/blade_exponential.hpp")])
P("P15", "Commutator and delta products",
  "cp(x, y) = (x y - y x)/2 component by component; dp(x, y, tol) is the highest-grade part of the geometric product that is not zero up to the tolerance.",
  ["inputs"], "For every coefficient, tolerance >= 0 and operand shape.", W,
  [I + "extra/commutator_product.hpp", I + "extra/delta_product.hpp"],
  [("commutator product", I + "extra/commutator_product.hpp"), ("delta product", I + "extra/delta_product.hpp")])
P("P16", "Meet, join and plunge of blades",
  "For non-zero blades, the join spans exactly the sum and the meet exactly the intersection of the two subspaces, up to a non-zero scalar, in every relative position (disjoint, contained, partially overlapping, equal); the plunge is the subspace that meets both orthogonally; fast and checked variants agree.",
  ["inputs"], "For every coefficient of the blades, in every class of relative position of two subspaces.",
  "Relative position is an algebraic condition on the coefficients: generic random inputs reach only the generic position, and the tests use a few literal pairs.",
  [I + "extra/meet_and_join.hpp", I + "extra/fast_meet_and_join.hpp", I + "extra/plunge.hpp", I + "extra/fast_plunge.hpp", I + "extra/delta_product.hpp"],
  [("meet and join", I + "extra/meet_and_join.hpp"), ("fast meet and join", I + "extra/fast_meet_and_join.hpp"), ("plunge", I + "extra/plunge.hpp")])
P("P17", "Constructors place every given coefficient on its basis blade",
  "vector(...), vector(begin, end), scalar(x), e(i), basis blades, unit pseudoscalar, constants and dense multivector types hold exactly the given coefficients on the intended basis blades, with coordinates in order, and conversions to the native type return the scalar.",
  ["inputs", "configurations"], "For every coefficient value, coordinate type and index.", W,
  [I + "util/vector.hpp", I + "util/basis_vector.hpp", I + "util/basis_blade.hpp", I + "util/multivector.hpp", I + "util/pseudoscalar.hpp", I + "core/scalar.hpp", I + "core/constant.hpp"],
  [("vector constructors", I + "util/vector.hpp"), ("dense multivectors", I + "util/multivector.hpp"), ("basis vectors", I + "util/basis_vector.hpp")])
P("P18", "Model functions recover the geometric parameters of blades",
  "In the homogeneous, conformal, Minkowski and plane-based models, points and Euclidean vectors are embedded as defined by the model, and the direction, location, moment, support and size functions of flats, rounds, tangents and dual blades return the Euclidean parameters from which the blade was built; projection and rejection decompose a vector.",
  ["inputs", "configurations"], "For every coordinate, radius and direction of the geometric objects of each model.",
  "The tests hold few literal objects per model; scaling by a weight, degenerate sizes and the orientation of directions are not sampled.",
  [I + "model/conformal.hpp", I + "model/minkowski.hpp", I + "model/homogeneous.hpp", I + "model/euclidean.hpp", I + "model/plane_based.hpp", I + "model/conformal/round_location.hpp", I + "model/conformal/round_size_sqr.hpp"],
  [("conformal functions", I + "model/conformal"), ("homogeneous functions", I + "model/homogeneous.hpp"), ("Euclidean functions", I + "model/euclidean.hpp")])
P("P19", "Assignment and conversion between multivector types preserve the value",
  "Copying an expression into a multivector of another shape stores every component that the target has on its own basis blade with the source's value and sets the others to zero; a checked copy fails if and only if a source component without place in the target exceeds the tolerance.",
  ["inputs", "programs"], "For every coefficient, tolerance and pair of source and target shapes, including run-time components.", W,
  [I + "core/trivial_copy.hpp", I + "core/clifford_expression.hpp"],
  [("trivial copy", I + "core/trivial_copy.hpp"), ("checked copy", I + "core/clifford_expression.hpp")])
P("P20", "Products of basis blades are right in every dimension that the library supports",
  "For algebras of any dimension up to the number of bits of the bitset, the sign and the bitset of products of basis blades with run-time sets of basis vectors are the ones that sorting the basis vectors gives, including the metric sign of repeated vectors; sign-change rules and grade use the number of set bits.",
  ["inputs", "configurations"], "For every pair of basis blades of spaces with up to 63 basis vectors.",
  "There are 2^126 pairs of basis blades; the tests multiply blades in at most five or six dimensions.",
  [I + "core/real_metric_space.hpp", I + "core/expression.hpp", I + "core/orthogonal_metric_mapping.hpp", I + "core/regressive_product_mapping.hpp"],
  [("bit-level canonical reordering", I + "core/expression.hpp"), ("metric sign of negative directions", I + "core/real_metric_space.hpp"), ("number of set bits", I + "core/constexpr.hpp")],
  note="Here the sets of basis vectors themselves are symbolic (up to 63 unknown bits per blade): every bit is a polynomial over GF(2) and every number of set bits an integer polynomial; `ones` is replaced by its contract, verified on its own body in the same run, and loops over bits are summarised after all of their paths have been executed.")
P("P21", "Scalar functions and constants act on scalar multivectors as on numbers",
  "pow, sqrt, cbrt, abs, exp, log and the trigonometric and hyperbolic functions of a scalar multivector give the function of its coefficient, whether the argument is a run-time value, a compile-time constant, a lazy argument or an expression; compile-time simplifications (powers of powers, roots of squares, absolute values of constants) keep the value for both signs of the argument.",
  ["inputs"], "For every value of the scalar in the domain of the function.",
  "The rewriting rules of powers and absolute values depend on the sign and shape of the argument; the tests evaluate few literals.",
  [I + "core/math.hpp", I + "core/constexpr.hpp", I + "core/expression.hpp", I + "core/expression_simplification_power.hpp", I + "core/constant.hpp"],
  [("math functions", I + "core/math.hpp"), ("power simplification", I + "core/expression_simplification_power.hpp")])
P("P22", "Zero, null and unit predicates",
  "is_zero(x, tol) holds exactly when every coefficient is within the tolerance, is_null(x, tol) when the reverse norm is, and is_unit(x, tol) when the reverse norm differs from one by no more than the tolerance.",
  ["inputs"], "For every coefficient and tolerance >= 0.", W,
  [I + "extra/tests.hpp", I + "core/clifford_expression.hpp", I + "core/default_tolerance.hpp"],
  [("predicates", I + "extra/tests.hpp")])
P("P23", "Traversal visits every component and basis vector exactly once",
  "for_each_component calls its visitor once per stored component with its basis blade and current value, in the stored order, stops at once when asked to, and reports whether values and blades are known at compile time; for_each_basis_vector visits exactly the basis vectors of the blade.",
  ["inputs", "programs"], "For every operand shape, coefficient and stopping position.", W,
  [I + "util/for_each_component.hpp", I + "util/for_each_basis_vector.hpp"],
  [("component traversal", I + "util/for_each_component.hpp"), ("basis vector traversal", I + "util/for_each_basis_vector.hpp")])
P("P24", "Text output denotes the value written",
  "Writing a multivector to a stream yields text whose terms are exactly its components, each with its coefficient and the names of its basis vectors.",
  ["inputs"], "For every coefficient, sign and operand shape, and the basis vector names of every predefined algebra.", "No test looks at the text; the branches on the sign of a coefficient and on the bits of run-time blades are not sampled.",
  [I + "extra/write.hpp"], [("stream insertion", I + "extra/write.hpp")],
  note="The stream and std::string are dependencies with assumed contracts (an insertion appends its characters, or the number it is given, to the text; a string holds the characters it was constructed from); the text is read by a parser of the notation and its value is compared component by component. The same parser reads the text of the native replays.")

NOTE = ("Every contract listed in the evidence is a postcondition on the result of a public function instantiated on one operand shape; the LLVM IR that clang 18 makes of /repo's current headers is executed "
        "symbolically along every path with symbolic coefficients, and each component is shown equal to the specification by an exact normal form of rational functions or by z3, for all values. "
        "Trusted: clang's front end and -O1 passes, the executor and its arithmetic, the textbook oracle. Coefficients are mathematical reals; types that are not instantiated are not covered.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(V, "spec", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "the contracts of this property are not written yet"})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"python3-vt -m gatlver {p['id']} quick", "thorough_cmd": f"python3-vt -m gatlver {p['id']} thorough",
                           "technique": "contract-based deductive verification: postconditions on the compiled code of the real headers, discharged for all inputs by exact normal forms and z3",
                           "level": "proof", "level_note": NOTE + (" " + p["note"] if p["note"] else "")})
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
    hook = [l.split()[0] for l in hook if "GATL_VERIFICATION" in l]
    m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q gatlver spec", "hooks": {"guard": "GATL_VERIFICATION", "enable": "-DGATL_VERIFICATION", "source_commits": hook},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print(len(checks), "checks,", len(na), "not applicable")


main()
