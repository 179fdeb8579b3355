#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
G="src/legendre/mod.rs src/jacobi/mod.rs src/chebyshev/mod.rs".split()
p("P01","Finite-interval Gauss rules return the mapped weighted sum",
  "For Gauss-Legendre, Gauss-Jacobi and both Gauss-Chebyshev rules of any degree, sequential integration over [a, b] returns (b-a)/2 times the sum, over every stored (node, weight) pair, of the weight times the integrand at (b-a)/2*node + (a+b)/2, up to floating-point rounding. Every pair takes part exactly once: the integrand is called exactly once per node, and no node, bound order (a > b, a = b, negative, large) or degree is treated differently.",
  ["inputs"],"every degree n >= 1, every pair of finite bounds, every integrand, every stored node/weight array",
  "Tests integrate a dozen polynomials over a few intervals at small degrees; a special case for some bounds, some degree, or the last element of the array is invisible to them.",
  G,[("map/sum over the stored pairs","integrate in each module"),("argument_transformation / scale_factor","src/{legendre,jacobi,chebyshev}/mod.rs")],observe=["return value of integrate","sequence of integrand arguments"])
p("P02","Infinite-domain Gauss rules return the plain weighted sum",
  "For Gauss-Laguerre and Gauss-Hermite rules of any degree, sequential integration returns the sum, over every stored (node, weight) pair, of the weight times the integrand at that node, up to floating-point rounding. The integrand is called exactly once per stored node, at the node itself, and no pair is skipped, repeated, truncated or re-weighted.",
  ["inputs"],"every degree, every alpha, every integrand",
  "Tests use a handful of degrees and smooth integrands; dropping negligible-weight nodes or stopping early shows only for integrands the tests do not use.",
  ["src/laguerre/mod.rs","src/hermite/mod.rs"],[("map/sum over the stored pairs","integrate in each module")],observe=["return value of integrate","sequence of integrand arguments"])
p("P03","Newton-Cotes rules compute their composite formula",
  "With h = (b-a)/n for degree n, sequential midpoint integration returns h*sum f(a+(k+1/2)h) for k=0..n-1, the trapezoid rule returns h*((f(a)+f(b))/2 + sum f(a+kh) for k=1..n-1), and the Simpson rule returns h/6*(f(a)+f(b)+2*sum f(a+kh) for k=1..n-1 + 4*sum f(a+(k-1/2)h) for k=1..n), up to rounding. This holds for every degree from 1 to the largest representable one and for every pair of bounds, with the integrand called exactly n, n+1 and 2n+1 times respectively, and never at a point outside the closed interval between the bounds (unless the step h is subnormal).",
  ["inputs"],"every degree in 1..=u32::MAX, every pair of bounds, every integrand",
  "Tests use one or two degrees per rule and x*x as integrand with loose tolerances; off-by-one errors at degree 1, at huge degrees or at the ends are averaged away.",
  ["src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/data_api.rs"],[("sums over the node iterator or range","integrate in each module"),("iter()","__impl_node_rule! in src/data_api.rs")],observe=["return value of integrate","sequence of integrand arguments"])
p("P04","Parallel integration computes what sequential integration computes",
  "With the rayon feature on, the parallel integration method of every one of the nine rules evaluates the integrand at the same points, the same number of times, with the same weights and scale as the sequential method, for every rule, bounds and integrand. The results differ at most by the order in which the terms are summed, whatever the number of threads and however the work is split. Like the sequential methods, the Newton-Cotes ones never evaluate the integrand outside the interval.",
  ["inputs","schedules"],"every rule, degree, bounds, integrand; every split and interleaving chosen by the thread pool",
  "The parallel tests compare a few integrals against constants with loose tolerances at a few degrees, under one thread-pool configuration.",
  ["src/legendre/mod.rs","src/jacobi/mod.rs","src/chebyshev/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"],[("par_iter/map/sum","par_integrate in each module"),("rayon::join of two sums","src/simpson/mod.rs")],observe=["return value of par_integrate"])
p("P05","Parallel construction builds the identical rule",
  "With the rayon feature on, the parallel constructors of Gauss-Legendre and both Gauss-Chebyshev rules produce, for every degree, exactly the same nodes and weights in the same order as the sequential constructors, so the two rules compare equal.",
  ["inputs","schedules"],"every degree; every split chosen by the thread pool",
  "Tests only check that the parallel rule is sorted at ten degrees below 200 and one integral; they never compare it with the sequential rule.",
  ["src/legendre/mod.rs","src/chebyshev/mod.rs"],[("indexed rev/map/collect","par_new in each module")],observe=["PartialEq of new(d) and par_new(d)"])
p("P06","Gauss-Hermite and Gauss-Laguerre are built from the exact recurrence",
  "For every degree n and every admissible alpha, the Gauss-Hermite rule (weight e^(-x^2)) and the Gauss-Laguerre rule (weight x^alpha e^(-x)) have as nodes the n roots of the orthogonal polynomial of degree n and as weights the matching Christoffel numbers, so every polynomial up to degree 2n-1 is integrated exactly up to rounding. In particular the eigenvalue problem they solve is the Jacobi matrix of that weight for every index, scaled by its exact zeroth moment.",
  ["inputs"],"every degree n >= 1, every finite alpha > -1, every polynomial of degree at most 2n-1",
  "Tests compare four tabulated rules (n <= 5); an error confined to high indices, to some alpha or to degree 1 is out of their reach.",
  ["src/hermite/mod.rs","src/laguerre/mod.rs","src/golub_welsch.rs","src/math.rs"],[("recurrence coefficient closures","GaussHermite::new, GaussLaguerre::new"),("companion matrix assembly and eigen-decomposition","src/golub_welsch.rs")],observe=["as_node_weight_pairs()"])
p("P07","Gauss-Jacobi is built from the exact recurrence",
  "For every degree n and all admissible alpha and beta, the Gauss-Jacobi rule has as nodes the n roots of the Jacobi polynomial and as weights the matching Christoffel numbers for (1-x)^alpha (1+x)^beta, so every polynomial up to degree 2n-1 is integrated exactly up to rounding. This includes degree 1, parameter pairs near or on singular combinations such as alpha+beta = -1, and asymmetric parameters at odd degrees.",
  ["inputs"],"every degree n >= 1, all finite alpha, beta > -1, every polynomial of degree at most 2n-1",
  "Tests use six parameter pairs; most values of (alpha, beta, n) take formulas no test exercises, and two tests even pin a wrong middle node.",
  ["src/jacobi/mod.rs","src/golub_welsch.rs","src/math.rs"],[("recurrence coefficient closures, scale factor, degree-1 shortcut","GaussJacobi::new"),("companion matrix assembly","src/golub_welsch.rs")],observe=["as_node_weight_pairs()"])
p("P08","Gauss-Jacobi special cases and conversions keep data and parameters",
  "Constructing Gauss-Jacobi with (alpha, beta) = (0,0), (-1/2,-1/2) or (1/2,1/2) gives exactly the nodes and weights of Gauss-Legendre, Gauss-Chebyshev of the first kind or of the second kind of that degree, and converting one of those rules into Gauss-Jacobi keeps its data unchanged and reports exactly those parameters. For every other parameter pair no such shortcut is taken, and alpha() and beta() always report the values given to the constructor (likewise alpha() for Gauss-Laguerre).",
  ["inputs"],"every degree, every parameter pair including pairs arbitrarily close to the special ones",
  "Tests check one degree per special pair and one pair for the accessors; swapped or nearly-special parameters are not sampled.",
  ["src/jacobi/mod.rs","src/laguerre/mod.rs"],[("match on (alpha, beta)","GaussJacobi::new"),("From impls","src/jacobi/mod.rs")],observe=["as_node_weight_pairs()","alpha()","beta()"])
p("P09","Gauss-Chebyshev nodes and weights follow the closed forms",
  "For every degree n and i = 1..n, counted from the largest node, the first-kind rule has node cos(pi(2i-1)/(2n)) and weight pi/n, and the second-kind rule has node cos(pi i/(n+1)) and weight pi/(n+1) sin^2(pi i/(n+1)), up to rounding. Hence each rule integrates polynomials up to degree 2n-1 exactly against its weight function.",
  ["inputs"],"every degree n >= 1 and every index",
  "Tests compare degree 1 and degree 5 only.",
  ["src/chebyshev/mod.rs","src/math.rs"],[("closed-form map over 1..=n","GaussChebyshev{First,Second}Kind::new")],observe=["as_node_weight_pairs()"])
p("P10","Gauss-Legendre data for degrees up to 100 is correct to rounding",
  "For each degree n from 1 to 100, the Gauss-Legendre rule's nodes are the n roots of the Legendre polynomial and its weights the corresponding Christoffel numbers, each within a few units of double-precision rounding. This covers every one of the 5050 (degree, index) pairs, including the middle node of odd degrees and both mirrored halves.",
  ["inputs"],"all 5050 (degree, index) pairs of the tabulated range",
  "Tests check nodes of degree 3 and integrals at a few small degrees; most of the ~5000 table entries and their index arithmetic are never compared with anything.",
  ["src/legendre/bogaert/mod.rs","src/legendre/bogaert/data.rs","src/legendre/mod.rs"],[("theta/weight tables","src/legendre/bogaert/data.rs"),("index arithmetic and mirroring","tabulated_pair"),("middle-node product formula","CL table")],observe=["as_node_weight_pairs()"])
p("P11","Gauss-Legendre data above degree 100 is correct to rounding",
  "For every degree n above 100, node k (counted from the largest) of the Gauss-Legendre rule is the k-th root of the Legendre polynomial and its weight the matching Christoffel number, within a few units of double-precision rounding, and the rule is symmetric about zero. No degree, index, or switch-over point between formulas is less accurate.",
  ["inputs"],"every degree n > 100 and every k in 1..=n",
  "One test looks at degree 128 with tolerance 1e-7, eight digits coarser than what the expansion delivers.",
  ["src/legendre/bogaert/mod.rs","src/legendre/bogaert/data.rs"],[("Bessel-zero expansion and tables","bessel_j0_zero, bessel_j1_squared"),("node and weight interpolants","compute_pair"),("mirroring","ThetaWeightPair::new")],observe=["as_node_weight_pairs()"])
p("P12","Rules hold one pair per requested degree, in ascending node order",
  "Every successfully constructed Gauss rule, sequential or parallel, holds exactly as many (node, weight) pairs as the degree requested, and degree() reports that number. The pairs are stored in ascending order of node, each weight next to its own node.",
  ["inputs"],"every rule, every degree accepted by the constructor (up to NonZeroUsize::MAX), all parameters",
  "Sortedness is tested at ten even degrees per rule, and never for odd-degree asymmetric Gauss-Jacobi or extreme degrees.",
  ["src/golub_welsch.rs","src/legendre/mod.rs","src/chebyshev/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs"],[("sort by total_cmp","src/golub_welsch.rs"),("descending k enumeration","new/par_new")],observe=["as_node_weight_pairs()","degree()"])
p("P13","A parameter value is always finite and greater than -1",
  "No safe use of the public API, including construction, conversion, parsing, default, arithmetic helpers and deserialization with any feature enabled, can produce a parameter value (the type taken by the Gauss-Jacobi and Gauss-Laguerre constructors) that is NaN, infinite, or less than or equal to -1. An operation whose result would be outside that range reports failure instead.",
  ["inputs","configurations"],"every f64 bit pattern, every string, every serialized document, every feature combination",
  "Tests sample about a dozen values and no deserialization path.",
  ["src/data_api.rs"],[("validating constructor","FiniteAboveNegOneF64::new"),("private field","FiniteAboveNegOneF64"),("derives","cfg_attr on FiniteAboveNegOneF64")],observe=["FiniteAboveNegOneF64::get"])
p("P14","Parameter values are accepted, computed and reported faithfully",
  "Every finite f64 greater than -1 is accepted by construction, conversion and parsing and is returned bit for bit by get() and by conversion back to f64; the checked helpers return the value of the corresponding f64 operation (add, subtract, multiply, divide, power) whenever it is admissible and fail otherwise. Formatting forwards to the f64 formatting so that the text parses back to the same value, default is zero, and parsing reports malformed text and out-of-range numbers as the two distinct error cases. Comparing two parameter values gives what comparing the two numbers gives.",
  ["inputs"],"every pair of f64 operands, every string",
  "Tests use about fifteen values.",
  ["src/data_api.rs"],[("new/get/checked_*","impl FiniteAboveNegOneF64"),("Display, LowerExp, UpperExp, FromStr, TryFrom, From","src/data_api.rs")],observe=["get()","checked_add/sub/mul/div/pow","to_string/parse"])
p("P15","All views of a rule expose the same data",
  "For every Gauss rule, nodes(), weights(), iter(), iteration by reference, iteration by value, as_node_weight_pairs() and into_node_weight_pairs() all expose the same stored pairs in the same order and number: the i-th node and the i-th weight are the two components of the i-th pair. For the Newton-Cotes rules both iterators yield 0, 1, ..., degree-1 and degree() reports the degree last set by construction, conversion or change_degree.",
  ["inputs","histories"],"every rule of every degree, every way of reading it, every sequence of change_degree calls",
  "Tests compare the views through the integral of x^2 at degree 2 or 3.",
  ["src/data_api.rs"],[("accessor macro","__impl_node_weight_rule!"),("node iterator macro","__impl_node_rule!")],observe=["nodes()","weights()","iter()","into_iter()","as_node_weight_pairs()","into_node_weight_pairs()","degree()"])
p("P16","Iterators obey the iterator contracts under every call sequence",
  "Every iterator type of the crate behaves, under any interleaving of next, next_back, nth, nth_back, last, count, len, size_hint and as_slice/as_ref, exactly like the standard iterator over the sequence it represents: each element is delivered at most once, from the right end, the reported length and remaining slice are always exact, and a clone has the same items left as its source.",
  ["histories"],"every interleaving of iterator calls on every iterator type at every length",
  "Tests call each method once on a fresh five-element mock; no test mixes front and back consumption or checks the concrete rule types.",
  ["src/data_api.rs"],[("forwarding impls","__impl_slice_iterator_newtype_traits!"),("as_slice / AsRef","__impl_node_weight_rule!")],observe=["Iterator, DoubleEndedIterator, ExactSizeIterator impls"])
p("P17","No input accepted by the API makes the crate panic or corrupt memory",
  "For every degree whose data can be allocated and for all admissible parameters, constructing a rule, integrating with it, reading it and parsing or computing parameters completes without index out of bounds, arithmetic overflow or wrap-around, division by zero or failed unwrap. A degree that cannot be represented is refused with a clean panic and never yields a truncated rule or undefined behaviour.",
  ["inputs"],"every degree in NonZeroUsize / NonZeroU32, all parameters, every string",
  "Tests touch degrees below a thousand plus one of a million; index arithmetic at the table boundaries and extreme degrees is untested.",
  ["src/legendre/bogaert/mod.rs","src/golub_welsch.rs","src/jacobi/mod.rs","src/chebyshev/mod.rs","src/legendre/mod.rs","src/data_api.rs"],[("index arithmetic","tabulated_pair, bessel_j0_zero, bessel_j1_squared"),("matrix indexing","golub_welsch"),("middle-node correction","GaussJacobi::new")],observe=["panics, aborts, length of the rule"])
p("P18","Recurrence coefficients and moments are finite on the whole parameter domain",
  "For every degree and all admissible alpha and beta for which the gamma-function values involved are representable, every number the Gauss-Jacobi, Gauss-Laguerre and Gauss-Hermite constructors feed to the eigenvalue problem, and the moment that scales the weights, is a finite real number: no division by zero, no square root of a negative number, no 0/0 at special combinations such as alpha + beta = -1 or 0, or alpha = beta. Hence no node or weight is NaN because of the parameters.",
  ["inputs"],"every degree, all finite alpha, beta > -1 with alpha + beta + 2 <= 171",
  "Tests use six parameter pairs; singular lines of the formulas have measure zero and are hit only by chosen inputs.",
  ["src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/math.rs"],[("coefficient closures","GaussJacobi::new, GaussLaguerre::new, GaussHermite::new")],observe=["as_node_weight_pairs()"])
p("P19","Rules are immutable values, safe to share between threads",
  "A rule's data cannot change after construction except through change_degree on the three Newton-Cotes rules: integrating, reading and converting have no side effect on the rule or on any global state, so results depend only on the rule, the bounds and the integrand. All rule, parameter and iterator types are Send and Sync, and equality and cloning take every field into account.",
  ["histories","schedules","inputs"],"every sequence of API calls on every rule, from any number of threads",
  "Tests look at single calls; absence of hidden state and of mutation through shared references is a statement about all call sequences.",
  ["src/lib.rs","src/data_api.rs","src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/simpson/mod.rs","src/trapezoid/mod.rs"],[("private fields, no &mut accessors","rule structs"),("derives","rule structs")],observe=["type-level API surface"])
p("P20","Optional features do not change what the library computes",
  "The numerical definition of every constructor and integration method is the same in every feature configuration: with libm or with std as math backend, each mathematical operation is the same function of the same argument, and enabling serde, rkyv, rayon or zerocopy changes no result. Features only add API; the public API of the default configuration is present in every configuration with a math backend.",
  ["configurations","inputs"],"every combination of feature flags with a math backend",
  "The test-suite runs in two configurations and compares neither with the other; std without other features is never built.",
  ["src/math.rs","Cargo.toml","src/lib.rs"],[("backend dispatch","src/math.rs"),("cfg gates","all modules")],observe=["results under each feature set"])
p("P21","Serialization traits cover every rule and every field",
  "With the corresponding feature enabled, every rule type and the validated parameter type FiniteAboveNegOneF64 implement the advertised traits: Serialize and Deserialize with serde, Archive, Serialize and Deserialize with rkyv, and KnownLayout with zerocopy. Serialization writes every field and deserialization restores every field from its own entry (by name in any order, or by position), so every value that is serialized and read back compares equal to the original.",
  ["configurations","inputs"],"every rule type and every value of it, every feature",
  "No test enables and exercises serialization at all.",
  ["src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/simpson/mod.rs","src/trapezoid/mod.rs","src/data_api.rs"],[("cfg_attr derives","rule structs")],observe=["trait impls; fields written and read by them"])
p("P22","Integration allocates nothing; the crate stays no_std",
  "Sequential integration with any rule, every method of the Newton-Cotes rules, and every by-reference view performs no heap allocation, and the crate links the standard library only when the std (or rayon) feature is on. Building a Gauss rule from closed forms (Legendre, Chebyshev) evaluates each node once, so construction and integration take a number of steps linear in the degree.",
  ["configurations","inputs"],"every rule, degree and integrand; every feature configuration without std",
  "No test observes allocation or the cost at large degrees, and the tests always link std.",
  ["src/lib.rs","src/midpoint/mod.rs","src/simpson/mod.rs","src/trapezoid/mod.rs","src/legendre/mod.rs","src/chebyshev/mod.rs"],[("#![no_std]","src/lib.rs"),("lazy iterators","integrate in each module")],observe=["calls into the allocator; crates linked"])
p("P23","The moment of every weight uses an accurate gamma function",
  "For every argument in (0, 171] the gamma function behind the Gauss-Jacobi and Gauss-Laguerre weights agrees with the true gamma function to within 1e-12 relative error in exact arithmetic (a part of the error that rounding of elementary functions cannot explain is excluded). Hence the weights of those rules sum to the exact integral of the weight function to that accuracy.",
  ["inputs"],"every real argument in (0, 171]",
  "Tests check about twenty arguments with absolute tolerances.",
  ["src/math.rs"],[("Lanczos approximation and coefficients","gamma, GAMMA_DK, GAMMA_R")],observe=["weights of GaussLaguerre / GaussJacobi"])
p("P24","The eigenvalue solver delivers nodes and weights to machine precision",
  "For every Gauss rule built from an eigenvalue problem, the computed nodes and weights agree with the exact eigen-decomposition of the assembled matrix to within a small multiple of machine precision, and the iteration terminates.",
  ["inputs"],"every degree and all parameters",
  "Tests compare a few tabulated rules.",
  ["src/golub_welsch.rs"],[("symmetric_eigen of nalgebra","src/golub_welsch.rs")],observe=["as_node_weight_pairs()"])
p("P25","Integrals of smooth functions converge as the degree grows",
  "For a smooth integrand, the error of every rule decreases with the degree at the rate theory predicts until it reaches the level of rounding errors, and accumulated rounding error in the weighted sum stays proportional to machine epsilon.",
  ["inputs"],"all smooth integrands, degrees and bounds",
  "Tests check a few integrals at fixed degrees.",
  ["src/legendre/mod.rs","src/midpoint/mod.rs"],[("weighted sums","integrate")],observe=["return value of integrate"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
