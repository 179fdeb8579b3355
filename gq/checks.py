"""One entry per property: which configurations it analyses and which rules decide it."""
from . import build
from .api import *


def load(cfgs, **kw):
    return {c: Api(p, c, **kw) for c, p in build.dumps(cfgs).items()}


CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def run(pid, rep, tier, seed):
    CHECKS[pid](rep, tier, seed)


SEQ_CFGS = ["default", "std", "all"]


@check("P01")
def p01(rep, tier, seed):
    from .integ import run_integrals
    rep.explanation = ("The body of integrate (everything it calls inlined) is abstracted to one closed-form value over a symbolic rule, symbolic bounds and an uninterpreted integrand: "
                       "loops and iterator pipelines become sums over an index. It is compared with the mapped weighted sum as a real-number normal form (rounding ignored); the number of integrand calls and the return condition are decided over the integers.")
    rep.assumptions = ["models of the core/alloc/rayon iterator adaptors used (gq/models.py)", "floating-point rounding is outside the property", "64-bit usize"]
    run_integrals(rep, load(SEQ_CFGS), FINITE, "integrate", seed, tier == "thorough")
    rep.floor("integration methods", 12)


@check("P02")
def p02(rep, tier, seed):
    from .integ import run_integrals
    rep.explanation = ("The body of integrate of the Laguerre and Hermite rules is abstracted to one closed-form value over a symbolic rule and an uninterpreted integrand and compared, as a real-number normal form, with the plain weighted sum; "
                       "the number of integrand calls and the return condition are decided over the integers.")
    rep.assumptions = ["models of the core/alloc iterator adaptors used (gq/models.py)", "floating-point rounding is outside the property"]
    run_integrals(rep, load(SEQ_CFGS), INFINITE, "integrate", seed, tier == "thorough")
    rep.floor("integration methods", 6)


@check("P03")
def p03(rep, tier, seed):
    from .integ import run_integrals
    rep.explanation = ("The body of integrate of the Newton-Cotes rules is abstracted to one closed-form value over a symbolic degree, symbolic bounds and an uninterpreted integrand and compared, as a real-number normal form, with the composite formula; "
                       "the number of integrand calls and the return condition are decided over the integers for every degree of the degree type.")
    rep.assumptions = ["models of the core/alloc iterator adaptors used (gq/models.py)", "floating-point rounding is outside the property"]
    run_integrals(rep, load(SEQ_CFGS), NEWTON, "integrate", seed, tier == "thorough")
    rep.floor("integration methods", 9)


@check("P04")
def p04(rep, tier, seed):
    from .integ import run_integrals
    rep.explanation = ("The body of par_integrate of the nine rules is abstracted like that of integrate (a rayon pipeline is modelled as the same reduction over the same indexed items, in any association) and compared with the specification of the sequential method, "
                       "which P01-P03 decide for the sequential code: same points, multiplicities, weights and scale.")
    rep.assumptions = ["models of the rayon adaptors used (gq/models.py): an indexed parallel map/sum evaluates every item exactly once", "floating-point rounding and summation order are outside the property"]
    run_integrals(rep, load(["all", "rayon"]), RULES, "par_integrate", seed, tier == "thorough")
    rep.floor("integration methods", 18)


@check("P15")
def p15(rep, tier, seed):
    from .views import run_views
    rep.explanation = ("Every accessor and every way of starting an iteration is abstracted on a symbolic rule; its length and its item at a symbolic position must be the corresponding component of the stored array (exact value equality). "
                       "For the Newton-Cotes rules the degree reported after new, From and change_degree (from an arbitrary state) is compared with the degree given.")
    rep.assumptions = ["models of core::slice::Iter, alloc::vec::IntoIter, Range and Map (gq/models.py)"]
    run_views(rep, load(SEQ_CFGS), seed)
    rep.floor("views", 3 * (6 * 8 + 3 * 7))


@check("P16")
def p16(rep, tier, seed):
    from .views import run_iterators
    rep.explanation = ("Inductive invariant per iterator type: the abstract state is a window [lo,hi) of the sequence; the fresh iterator is [0,n), and on an arbitrary window every method returns exactly what the standard iterator returns and leaves exactly the remaining window. "
                       "This covers every interleaving of calls at every length. When a state is not of that form, bounded histories are composed symbolically and only a history with a wrong observation is reported.")
    rep.assumptions = ["models of core::slice::Iter, alloc::vec::IntoIter, Range and Map (gq/models.py)", "methods not overridden follow from next/next_back"]
    run_iterators(rep, load(["default", "all"]), seed)
    rep.floor("iterator types", 54)
    rep.floor("iterator methods", 54 * 8)


@check("P05")
def p05(rep, tier, seed):
    from .ctor import run_par_new
    rep.explanation = ("new and par_new are both abstracted to a symbolic sequence of pairs over a symbolic degree; length and element at a symbolic index must have identical value numbers (the same floating-point operations on the same operands), so they are bit-identical for every degree.")
    rep.assumptions = ["models of the core and rayon adaptors used (gq/models.py): an indexed parallel collect keeps the order"]
    run_par_new(rep, load(["all", "rayon"]), seed)
    rep.floor("parallel constructors", 6)


@check("P06")
def p06(rep, tier, seed):
    from .ctor import run_recurrence
    from .domain import defined
    rep.explanation = ("The constructor is abstracted to 'sorted eigenpairs of matrix M, weight = scale * (first eigenvector component)^2'. Every entry of M at a symbolic index, and the scale, must equal the Jacobi matrix and the zeroth moment of the weight function as real normal forms; "
                       "by the uniqueness of the Jacobi matrix of a measure any differing entry is a wrong rule.")
    rep.assumptions = ["nalgebra's symmetric_eigen returns the eigenvalues and unit eigenvectors of the symmetric matrix given by the lower triangle (its accuracy is P24)", "floating-point rounding is outside the property"]
    run_recurrence(rep, load(SEQ_CFGS), INFINITE, seed, tier == "thorough", defined)
    rep.floor("constructors", 6)
    rep.floor("matrix entry obligations", 12)


@check("P07")
def p07(rep, tier, seed):
    from .ctor import run_recurrence
    from .domain import defined
    rep.explanation = ("GaussJacobi::new is split into the cases of its own conditions (special parameter pairs, degree 1, general). The general case is 'sorted eigenpairs of M, weight = scale * (first component)^2'; every entry of M and the scale must equal the Jacobi matrix and zeroth moment as real normal forms and be defined "
                       "on the whole parameter domain (no vanishing denominator, no square root of a negative number); the degree-1 case must be the closed form; the special pairs must be the pairs of the rule delegated to.")
    rep.assumptions = ["nalgebra's symmetric_eigen returns the eigenvalues and unit eigenvectors of the symmetric matrix given by the lower triangle (its accuracy is P24)", "floating-point rounding is outside the property"]
    run_recurrence(rep, load(SEQ_CFGS), ("GaussJacobi",), seed, tier == "thorough", defined)
    rep.floor("constructors", 3)
    rep.floor("matrix entry obligations", 6)


@check("P08")
def p08(rep, tier, seed):
    from .ctor import run_jacobi_special
    rep.explanation = ("GaussJacobi::new is abstracted with the special parameters as constants (both signs of zero) and must have the value numbers of the rule it is equivalent to; the From conversions must move the pairs unchanged; alpha() and beta() are evaluated on the constructed values.")
    rep.assumptions = ["models of the core/alloc iterator adaptors used (gq/models.py)"]
    run_jacobi_special(rep, load(SEQ_CFGS), seed)
    rep.floor("special parameter pairs", 18)
    rep.floor("conversions", 9)
    rep.floor("parameter reports", 9)


@check("P09")
def p09(rep, tier, seed):
    from .ctor import run_chebyshev
    rep.explanation = ("Both Chebyshev constructors (sequential and parallel) are abstracted to a symbolic sequence over a symbolic degree; node and weight at a symbolic position must equal the closed form as real normal forms (trigonometric identities included).")
    rep.assumptions = ["models of the core and rayon adaptors used (gq/models.py)", "floating-point rounding is outside the property"]
    run_chebyshev(rep, load(SEQ_CFGS), seed)
    rep.floor("constructors", 8)
    rep.floor("closed forms", 16)


@check("P10")
def p10(rep, tier, seed):
    from .legendre import run_tabulated
    rep.explanation = ("The constructor is abstracted to a symbolic sequence over a symbolic degree whose leaves are lookups in the constant tables; the summary is folded at every degree 1..100 and every index (exhaustive: 5050 pairs), in double and in exact arithmetic, "
                       "and compared with roots and Christoffel numbers computed from the three-term recurrence with 50 digits.")
    rep.assumptions = ["models of the core and rayon adaptors used (gq/models.py)", "sin and cos of the math backend are accurate to about one unit in the last place"]
    run_tabulated(rep, load(SEQ_CFGS), seed)
    rep.floor("constructors", 4)
    rep.floor("pairs folded", 4 * 5050)


@check("P11")
def p11(rep, tier, seed):
    from .legendre import run_large
    rep.explanation = ("The constructor is abstracted to a closed-form expression over a symbolic degree and index. Between the conditions it contains it is one analytic expression; it is folded on both sides of every condition, at the ends, around the middle and on a graded grid of degrees up to 2^50, in double and in exact arithmetic, "
                       "and compared with an independent high-order uniform expansion (checked against the three-term recurrence).")
    rep.assumptions = ["models of the core and rayon adaptors used (gq/models.py)", "sin and cos of the math backend are accurate to about one unit in the last place", "degrees and indices between the chosen ones behave like their neighbours in the same piece"]
    run_large(rep, load(SEQ_CFGS), seed, tier == "thorough")
    rep.floor("constructors", 4)
    rep.floor("pairs folded", 5000)


@check("P12")
def p12(rep, tier, seed):
    from .order import run_order
    rep.explanation = ("Every constructor of a Gauss rule is abstracted to a symbolic sequence over a symbolic degree. Its length term must equal the degree, as must the value of degree(). Rules from an eigenvalue problem must be 'the eigenpairs sorted ascending by eigenvalue', node and weight read at the same position of the same sorted sequence; "
                       "the Chebyshev rules must be the closed forms, which ascend; Legendre nodes are folded exhaustively up to degree 100 and at neighbouring positions around every condition above.")
    rep.assumptions = ["models of the core/alloc/nalgebra functions used (gq/models.py): sort_unstable_by sorts by the given comparison", "for Legendre degrees above 100 the order between the folded neighbours follows from P11"]
    run_order(rep, load(SEQ_CFGS), seed, tier == "thorough")
    rep.floor("constructors", 18 + 3)
    rep.floor("degree reports", 21)
    rep.floor("sorted cases", 9)


@check("P18")
def p18(rep, tier, seed):
    from .domain import run_finite
    rep.explanation = ("Interval abstract interpretation in IEEE double arithmetic: every number the constructors feed to the eigenvalue problem (entries of the matrix at a symbolic index), the moment and the closed form of degree 1 are bounded over the whole parameter domain, which is subdivided into boxes until "
                       "no denominator contains zero, no square root has a negative argument and no intermediate value overflows. The gamma function they use is bounded the same way over its whole argument range.")
    rep.assumptions = ["round-to-nearest is monotone, so interval end points computed in double arithmetic bound the code's values; libm functions within 1e-12 relative", "domain: alpha + beta + 2 <= 171 (Jacobi), alpha + 1 <= 171 (Laguerre); index below 2^62"]
    run_finite(rep, load(SEQ_CFGS), seed)
    rep.floor("constructors", 9)
    rep.floor("definedness obligations", 3 * (3 + 3 + 5))
    rep.floor("gamma functions", 3)


@check("P23")
def p23(rep, tier, seed):
    from .gammacheck import run_gamma
    rep.explanation = ("The functions that compute the gamma function (recognised by value, not by name) and the moments of the Laguerre and Jacobi constructors are abstracted to closed-form expressions. Between the conditions they contain they are analytic; the relative error in exact arithmetic is expanded in a Chebyshev series on every piece of (0, 171], "
                       "whose coefficients bound it on the whole piece. The Jacobi moment, a product of such values, is also folded at chosen parameter pairs including both sides of every condition.")
    rep.assumptions = ["the tail of each Chebyshev series is estimated from its last coefficients"]
    run_gamma(rep, load(SEQ_CFGS), seed, tier == "thorough")
    rep.floor("gamma functions", 3)
    rep.floor("moments", 6)


PARAM_CFGS = ["default", "std", "libm_serde", "libm_rkyv", "libm_zerocopy", "all"]


@check("P13")
def p13(rep, tier, seed):
    from .param import run_valid
    rep.explanation = ("Every function and trait method (generic ones included, with unknown calls returning arbitrary values) that returns, modifies or builds a parameter value is abstracted; every stored number it can yield must be entailed finite and greater than -1 by the conditions of its path. "
                       "The field must be private, no safe function may hand out mutable access to it, and no trait that builds values from bytes may be implemented.")
    rep.assumptions = ["unsafe code outside the crate is not considered", "an archived (rkyv) value is only obtained by archiving a valid value, as the crate implements no byte validation for it"]
    run_valid(rep, load(PARAM_CFGS, gamma=False), seed)
    rep.floor("configurations", 6)
    rep.floor("fields", 6)
    rep.floor("functions", 6 * 13)


@check("P14")
def p14(rep, tier, seed):
    from .param import run_faithful
    rep.explanation = ("Each operation of the parameter type is abstracted to a closed-form value over symbolic operands (or a symbolic text) and compared, exactly, with its specification: success condition, payload and error case. "
                       "Formatting is abstracted to the sequence of pieces written (the compiled format string is decoded): exactly one piece, the stored number, in the right notation, with default options.")
    rep.assumptions = ["f64's own Display, LowerExp, UpperExp and FromStr round-trip (core)"]
    run_faithful(rep, load(SEQ_CFGS, gamma=False), seed)
    rep.floor("operations", 3 * 16)


@check("P17")
def p17(rep, tier, seed):
    from .panics import run_panics
    rep.explanation = ("Every function a user can call is abstracted on symbolic arguments; every assertion, index, slice, unwrap and panic site met on any path is an obligation that the path conditions must exclude, for every degree whose data can be allocated. "
                       "A second pass of the constructors with wrapping arithmetic and unrestricted degrees shows that the length asked for is still the degree, so the allocation is refused and no shorter rule appears. Iterator methods are covered on every reachable window of their sequence.")
    rep.assumptions = ["models of the core/alloc/rayon/nalgebra functions used (gq/models.py) list their own panics", "allocations of more than isize::MAX bytes are refused by alloc", "rules hold at least one pair (P12)", "integrands do not panic"]
    run_panics(rep, load(SEQ_CFGS + ["rayon"]), seed)
    rep.floor("functions", 4 * 90)
    rep.floor("constructors with wrapping arithmetic", 4 * 6)
    rep.floor("iterator methods", 4 * 54)


@check("P20")
def p20(rep, tier, seed):
    from .features import run_features
    rep.explanation = ("Every function a user can call is compared between feature configurations: typed MIR (generic part, closures and every local function it uses) identical up to numbering, or, where the math backend or a cfg makes it differ, equal value numbers of the abstract summaries (libm and std operations are the same named function). "
                       "Items, impls, auto traits and signatures of each configuration must exist in every configuration with more features.")
    rep.assumptions = ["corresponding functions of libm and std compute the same mathematical function", "serialization code is P21"]
    cfgs = list(build.CONFIGS) + (list(build.COMBOS) if tier == "thorough" else [])
    run_features(rep, load(cfgs, gamma=False), seed)
    rep.floor("configurations", len(cfgs))
    rep.floor("functions compared", 9 * 300)


@check("P21")
def p21(rep, tier, seed):
    from .serial import run_serial
    from .features import feats
    rep.explanation = ("Which types implement which traits is a query on the type-checked program of every configuration. The bodies of the serialization impls (derived or handwritten) are abstracted on a symbolic value: serialize yields an abstract data model with named entries, which deserialize is given in every order of the entries and as a plain sequence; "
                       "for rkyv, serialize and resolve fill an abstract archived structure that deserialize reads. Every number that comes out must be the number that went in.")
    rep.assumptions = ["the impls serde and rkyv provide for std types round-trip", "a format returns the entries it was given"]
    cfgs = [c for c in list(build.CONFIGS) + (list(build.COMBOS) if tier == "thorough" else []) if feats(c) & {"serde", "rkyv", "zerocopy"}]
    run_serial(rep, load(cfgs, gamma=False), seed)
    rep.floor("configurations", len(cfgs))
    rep.floor("impls", 230)
    rep.floor("presentations", 100)
    rep.floor("fields archived", 52)


@check("P22")
def p22(rep, tier, seed):
    from .cost import run_cost
    rep.explanation = ("Allocation: every monomorphic body reachable from integration, the Newton-Cotes methods and the by-reference views (blocks on a path that returns) is searched for calls that allocate: allocating functions of alloc, or calls whose result owns heap memory while no argument does. "
                       "Linking: the crates linked and the crate attributes of every configuration without std and rayon. Steps: the loops (of the code and inside modelled iterator methods) met while integration and the closed-form constructors are abstracted must have trip counts bounded by a linear term, and no loop over the degree may lie inside another.")
    rep.assumptions = ["functions of core and libm do not allocate and take the steps their documentation states", "the integrand itself is the caller's"]
    cfgs = list(build.CONFIGS) + (list(build.COMBOS) if tier == "thorough" else [])
    run_cost(rep, load(cfgs, gamma=False), seed)
    rep.floor("configurations", len(cfgs))
    rep.floor("no_std configurations", 4)
    rep.floor("functions without allocation", len(cfgs) * 200)
    rep.floor("bodies searched", len(cfgs) * 300)
    rep.floor("step counts", len(cfgs) * 10)
    rep.floor("loops", len(cfgs) * 10)


@check("P19")
def p19(rep, tier, seed):
    from .immut import run_immutable
    rep.explanation = ("Type-level rules on the type-checked program: private fields, no interior mutability in any field type (walked through boxes and generic arguments), Send and Sync decided by the trait solver; every safe function that takes a rule by exclusive reference is abstracted and must leave it unchanged (change_degree excepted); "
                       "no body reached from the public API touches a mutable or interior-mutable static or calls into the environment. Equality and cloning are abstracted on symbolic values: equality must be the conjunction over every field, a clone must have identical fields.")
    rep.assumptions = ["unsafe code outside the crate is not considered"]
    run_immutable(rep, load(SEQ_CFGS + ["rayon"], gamma=False), seed)
    rep.floor("types", 4 * (9 + 1 + 27))
    rep.floor("equality functions", 4 * 10)
    rep.floor("clone functions", 4 * 10)
    rep.floor("bodies searched", 4 * 100)
    rep.floor("functions with exclusive access", 4 * 3)


# technique, level note (MANIFEST.json)
MODELS = "Trusts the models of core/alloc/rayon/nalgebra functions in gq/models.py and rustc's MIR; assumes 64-bit usize. Rounding is outside the property. Undecided obligations (none on the current tree) stay quiet and are listed in the evidence file."
EXACT = "Trusts the models of core/alloc/rayon functions in gq/models.py and rustc's MIR; assumes 64-bit usize. Undecided obligations (none on the current tree) stay quiet and are listed in the evidence file."
META = {
    "P01": ("abstract interpretation of typed MIR to closed-form sums, compared as real normal forms", "All degrees, bounds and integrands at once: every obligation discharged by normal-form equality on the current tree. " + MODELS),
    "P02": ("abstract interpretation of typed MIR to closed-form sums, compared as real normal forms", "All degrees and integrands at once. " + MODELS),
    "P03": ("abstract interpretation of typed MIR to closed-form sums, compared as real normal forms", "All degrees of the degree type, bounds and integrands at once. " + MODELS),
    "P04": ("abstract interpretation of typed MIR to closed-form sums, compared as real normal forms", "All rules, bounds, integrands and work splits at once. " + MODELS),
    "P05": ("abstract interpretation of typed MIR to symbolic sequences, exact value-number equality", "Every degree and index at once. " + EXACT),
    "P06": ("abstract interpretation of typed MIR to the symbolic Jacobi matrix, compared as real normal forms; interval analysis for definedness", "Every degree, index and parameter at once. " + MODELS),
    "P07": ("abstract interpretation of typed MIR to the symbolic Jacobi matrix, compared as real normal forms; interval analysis for definedness", "Every degree, index and parameter pair at once; one known finding (middle node of odd degrees when alpha != beta). " + MODELS),
    "P08": ("abstract interpretation of typed MIR to symbolic sequences, exact value-number equality", "Every degree and index at once. " + EXACT),
    "P09": ("abstract interpretation of typed MIR to symbolic sequences, compared as real normal forms with trigonometric identities", "Every degree and index at once. " + MODELS),
    "P10": ("abstract interpretation of typed MIR to table lookups; exhaustive constant folding of the finite domain", "All 5050 (degree, index) pairs. " + EXACT),
    "P11": ("abstract interpretation of typed MIR to a closed-form expression; constant folding on both sides of every condition and on a graded grid", "Conditions and table accesses are exact for every degree; the accuracy between the grid points is inferred from the expression being one analytic formula per piece. " + EXACT),
    "P12": ("abstract interpretation of typed MIR to symbolic sequences; structural recognition of the sorted eigenpairs", "Length and order for every degree and parameter; Legendre above degree 100 at chosen degrees, the rest follows from P11; one known finding. " + EXACT),
    "P18": ("interval abstract interpretation in double arithmetic over a subdivided parameter domain", "Sound bounds for every degree, index and parameter of the stated domain. " + EXACT),
    "P23": ("abstract interpretation of typed MIR to closed-form expressions; Chebyshev expansion of the error on every analytic piece", "Error in exact arithmetic over the whole argument range; series tails are estimated. " + EXACT),
    "P15": ("abstract interpretation of typed MIR to symbolic sequences, exact value-number equality", "All rules, lengths and positions at once. " + EXACT),
    "P16": ("inductive window invariant over symbolic iterator state (typestate), exact value-number equality", "All states and call sequences by induction; falls back to bounded histories when a state is not a window. " + EXACT),
    "P13": ("abstract interpretation of typed MIR with unknown calls returning arbitrary values; entailment of the range by path conditions; type-level rules on fields, impls and mutable access", "Every producer of a parameter value in six feature configurations; one known finding (zerocopy TryFromBytes). " + EXACT),
    "P14": ("abstract interpretation of typed MIR to closed-form values, exact value-number equality; decoding of compiled format strings", "All operands and all texts at once, relative to core's own f64 formatting and parsing. " + EXACT),
    "P19": ("effect analysis over the call graph (statics, environment, raw writes), trait-solver facts (Send, Sync, Freeze), field visibility, and exact value-number equality for eq and clone", "All public functions and types of four feature configurations. " + EXACT),
    "P17": ("abstract interpretation of typed MIR; every panic site as an obligation entailed by its path conditions (linear integer arithmetic)", "All degrees that can be allocated, all parameters, all texts, all iterator states; wrap-around semantics for larger degrees. " + EXACT),
    "P22": ("call-graph search of monomorphic MIR for allocating calls; linked-crate query; loop-nest trip counts from abstract interpretation", "All degrees, inputs and integrands (quick: 10 configurations; thorough: all combinations). Allocation is judged by a list of the functions of alloc and by ownership of results. " + EXACT),
    "P21": ("trait-impl queries on the type-checked program; abstract interpretation of the serialization impls over an abstract data model, exact value-number equality of the round trip", "All values, entry orders and feature configurations (quick: the 6 with serialization features; thorough: all combinations). " + EXACT),
    "P20": ("comparison of typed MIR and of abstract-interpretation summaries between feature configurations; subset queries over the public API", "Quick: 10 configurations; thorough: all 40 combinations with a math backend as well. " + EXACT),
}
