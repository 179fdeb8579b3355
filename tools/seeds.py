"""Specifications of the planted bugs; tools/seedlib.py turns them into seeded/<id>."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed("jacobi-weight-pruning", "P01",
     [("src/jacobi/mod.rs", """        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();""",
       """        let result: f64 = self
            .node_weight_pairs
            .iter()
            .filter(|(_, w_val)| *w_val > 1e-13)
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    let rule = GaussJacobi::new(40.try_into().unwrap(), p(30.0), p(25.5));
    let mut calls = 0;
    let got = rule.integrate(-1.0, 1.0, |x| { calls += 1; (1.0 - x).powi(-30) });
    let want: f64 = rule.iter().map(|(x, w)| w * (1.0 - x).powi(-30)).sum();
    assert_eq!(calls, 40);
    assert!((got - want).abs() <= 1e-9 * want.abs(), "{got} {want}");
}
""", "a Gauss-Jacobi rule with a weight below 1e-13, i.e. large parameters and a sizeable degree", "nodes with tiny weights are left out of the sum, although the integrand may be huge there")

seed("hermite-take-while", "P02",
     [("src/hermite/mod.rs", """            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();
        result
    }

    #[cfg""", """            .iter()
            .skip_while(|(_, w_val)| *w_val == 0.0)
            .take_while(|(_, w_val)| *w_val >= 1e-30)
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();
        result
    }

    #[cfg""")],
     """use gauss_quad::GaussHermite;
fn main() {
    let rule = GaussHermite::new(400.try_into().unwrap());
    let mut calls = 0;
    rule.integrate(|x| { calls += 1; x });
    assert_eq!(calls, 400);
    let rule = GaussHermite::new(330.try_into().unwrap());
    let got = rule.integrate(|x| (x * x).exp());
    let want: f64 = rule.iter().map(|(x, w)| w * (x * x).exp()).sum();
    assert!((got - want).abs() <= 1e-9 * want.abs(), "{got} {want}");
}
""", "a Gauss-Hermite rule of degree above about 350, whose outer weights are below 1e-30", "the sum stops at the first weight below 1e-30, so most nodes are left out")

seed("simpson-f32-degree", "P03",
     [("src/simpson/mod.rs", "let n = self.iter().count() as f64;", "let n = f64::from(self.degree().get() as f32);")],
     """use gauss_quad::Simpson;
fn main() {
    let n = (1u32 << 24) + 1;
    let rule = Simpson::new(n.try_into().unwrap());
    let mut last = 0.0f64;
    let mut k = 0u64;
    let h = 1.0 / n as f64;
    rule.integrate(0.0, 1.0, |x| { k += 1; if k == (n - 1) as u64 { last = x; } 1.0 });
    assert!((last - (n - 1) as f64 * h).abs() < 1e-12, "{last}");
}
""", "a Simpson rule of more than 2^24 cells whose number is not representable as f32", "the step length is computed from a rounded number of cells")

seed("trapezoid-par-tail", "P04",
     [("src/trapezoid/mod.rs", "(1..degree)\n            .into_par_iter()", "(1..if degree > 4096 { degree & !3 } else { degree })\n            .into_par_iter()")],
     """use gauss_quad::Trapezoid;
fn main() {
    for n in [100u32, 4096, 5000, 5003] {
        let rule = Trapezoid::new(n.try_into().unwrap());
        let a = rule.integrate(0.0, 1.0, |x| 1.0 + x);
        let b = rule.par_integrate(0.0, 1.0, |x| 1.0 + x);
        assert!((a - b).abs() < 1e-9, "{n}: {a} {b}");
    }
}
""", "parallel trapezoid integration with more than 4096 cells, not a multiple of four", "the last one to three interior points are not evaluated", features=["rayon"])

seed("nth-back-clamped", "P16",
     [("src/data_api.rs", "                self.0.nth_back(n)", "                self.0.nth_back(n.min(self.0.len().saturating_sub(1)))")],
     """use gauss_quad::GaussLegendre;
fn main() {
    let rule = GaussLegendre::new(3.try_into().unwrap());
    let mut it = rule.iter();
    it.next();
    assert!(it.nth_back(2).is_none());
    let mut it = rule.nodes();
    assert!(it.nth_back(2).is_some());
}
""", "nth_back with an index at or beyond the number of remaining items", "returns the front item instead of None")

seed("into-iter-drops-nothing", "P15",
     [("src/data_api.rs", "$quadrature_rule_nodes::new(self.node_weight_pairs.iter().map(|p| &p.0))",
       "$quadrature_rule_nodes::new(self.node_weight_pairs[..self.node_weight_pairs.len() & (::core::primitive::usize::MAX >> 40 << 1 | 1)].iter().map(|p| &p.0))")],
     """use gauss_quad::GaussChebyshevFirstKind;
fn main() {
    let n = 1usize << 25;
    let rule = GaussChebyshevFirstKind::new((n + 3).try_into().unwrap());
    assert_eq!(rule.nodes().len(), n + 3);
}
""", "a rule of at least 2^25 nodes", "nodes() shows only the low bits' worth of the nodes")


seed("legendre-par-mirrored", "P05",
     [("src/legendre/mod.rs", """                .map(|k| NodeWeightPair::new(degree.get(), k + 1).into_tuple())""",
       """                .map(|k| {
                    let mirrored = degree.get() - 1 - k;
                    if degree.get() > 5000 && mirrored < k {
                        // reuse the accurate half
                        let (x, w) = NodeWeightPair::new(degree.get(), mirrored + 1).into_tuple();
                        return (-x, w);
                    }
                    NodeWeightPair::new(degree.get(), k + 1).into_tuple()
                })""")],
     """use gauss_quad::GaussLegendre;
fn main() {
    for n in [7usize, 100, 101, 5000, 5003, 8000] {
        let n = n.try_into().unwrap();
        assert!(GaussLegendre::par_new(n) == GaussLegendre::new(n), "degree {n}");
    }
}
""", "a parallel construction of more than 5000 nodes", "the lower half is mirrored instead of computed, so it differs in the last bits from the sequential rule", features=["rayon", "std"])

seed("laguerre-factorial-shortcut", "P06",
     [("src/laguerre/mod.rs", "            gamma(alpha.get() + 1.0),\n        );", """            if alpha.get() > 20.0 && alpha.get() % 1.0 == 0.0 {
                // gamma(k + 1) = k!
                (2..alpha.get() as u32).fold(1.0, |p, k| p * f64::from(k))
            } else {
                gamma(alpha.get() + 1.0)
            },
        );""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for a in [3.0, 20.0, 20.5, 21.0, 30.0] {
        let rule = GaussLaguerre::new(6.try_into().unwrap(), FiniteAboveNegOneF64::new(a).unwrap());
        // the first moment is (a + 1) times the zeroth, and for whole a the zeroth is a!
        let m0 = rule.integrate(|_| 1.0);
        if a % 1.0 == 0.0 {
            let want: f64 = (1..=a as u32).map(f64::from).product();
            assert!((m0 / want - 1.0).abs() < 1e-10, "{a}: {m0} {want}");
        }
    }
}
""", "a whole-number alpha above 20", "the moment is (alpha - 1)! instead of alpha!")

seed("jacobi-deflated", "P07",
     [("src/golub_welsch.rs", "        let off_diag_elem = off_diag(idx);", """        // Deflate early: tiny couplings only slow the eigenvalue iteration down.
        let coupling = off_diag(idx);
        let off_diag_elem = if coupling.abs() < 1e-4 { 0.0 } else { coupling };""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for (a, b) in [(-0.9, 0.3), (-1.0 + 1e-10, 0.25)] {
        let rule = GaussJacobi::new(4.try_into().unwrap(), p(a), p(b));
        let m0: f64 = rule.weights().sum();
        let got: f64 = rule.iter().map(|(x, w)| w * (1.0 - x) * (1.0 - x)).sum();
        let s = a + b + 2.0;
        let want = m0 * 4.0 * (a + 1.0) * (a + 2.0) / (s * (s + 1.0));
        assert!((got / want - 1.0).abs() < 1e-3, "{a} {b}: {got} {want}");
    }
}
""", "a parameter within about 1e-8 of -1", "the small coupling of the first two polynomials is dropped, so all weight falls on one node")

seed("jacobi-near-legendre", "P08",
     [("src/jacobi/mod.rs", "            (0.0, 0.0) => return GaussLegendre::new(deg).into(),", "            (a, b) if a.abs().max(b.abs()) < 1e-9 => return GaussLegendre::new(deg).into(),")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    let rule = GaussJacobi::new(4.try_into().unwrap(), p(1e-10), p(0.0));
    assert_eq!(rule.alpha().get(), 1e-10);
    assert_eq!(rule.beta().get(), 0.0);
}
""", "parameters within 1e-9 of zero but not zero", "the rule is built as Gauss-Legendre and reports alpha = beta = 0")

seed("chebyshev-small-angle", "P09",
     [("src/chebyshev/mod.rs", """                .map(|i| {
                    let over_n_plus_1 = 1.0 / (n + 1.0);
                    let sin_val = sin(PI * i as f64 * over_n_plus_1);
                    (
                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * sin_val * sin_val,
                    )
                })
                .collect(),
        }
    }

    #[cfg""", """                .map(|i| {
                    let over_n_plus_1 = 1.0 / (n + 1.0);
                    let angle = PI * i as f64 * over_n_plus_1;
                    let sin_val = if angle < 1e-3 { angle } else { sin(angle) };
                    (
                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * sin_val * sin_val,
                    )
                })
                .collect(),
        }
    }

    #[cfg""")],
     """use gauss_quad::GaussChebyshevSecondKind;
fn main() {
    for n in [10usize, 3000, 10000] {
        let rule = GaussChebyshevSecondKind::new(n.try_into().unwrap());
        let first = *rule.weights().next().unwrap();
        let last = *rule.weights().last().unwrap();
        assert!((first / last - 1.0).abs() < 1e-9, "{n}: {first} {last}");
    }
}
""", "a second-kind rule of more than about 3140 nodes", "the outermost weights on one side use sin(x) = x, off by up to 3e-7")

seed("legendre-table-digit", "P10",
     [("src/legendre/bogaert/mod.rs", "ODD_THETA_ZEROS[n2 - 1][n2 - k - 1],", "ODD_THETA_ZEROS[n2 - 1][if n2 == 43 && k == 0 { n2 - k - 2 } else { n2 - k - 1 }],")],
     """use gauss_quad::GaussLegendre;
fn main() {
    for n in 2..=100usize {
        let rule = GaussLegendre::new(n.try_into().unwrap());
        let x: Vec<f64> = rule.nodes().copied().collect();
        for i in 0..n {
            assert!((x[i] + x[n - 1 - i]).abs() < 1e-14, "degree {n}: {} {}", x[i], x[n - 1 - i]);
        }
    }
}
""", "degree 87, outermost node", "the outermost node on one side is the second outermost")

seed("bessel-short-series", "P11",
     [("src/legendre/bogaert/mod.rs", "    if k > 20 {\n", "    if k > 20 && k % 64 == 0 {\n        // McMahon's leading terms\n        let z: f64 = PI * (k as f64 - 0.25);\n        z + (0.125 - 8.072_916_666_666_667e-2 / (z * z)) / (z + 1e-3)\n    } else if k > 20 {\n")],
     """use gauss_quad::GaussLegendre;
fn main() {
    for n in [101usize, 120, 127, 128, 129, 200, 500] {
        let rule = GaussLegendre::new(n.try_into().unwrap());
        // P_n vanishes at every node
        for &x in rule.nodes() {
            let (mut p0, mut p1) = (1.0, x);
            for k in 1..n {
                let p2 = ((2 * k + 1) as f64 * x * p1 - k as f64 * p0) / (k + 1) as f64;
                p0 = p1;
                p1 = p2;
            }
            let dp = n as f64 * (p0 - x * p1) / (1.0 - x * x);
            assert!((p1 / dp).abs() < 2e-12, "degree {n}, node {x}: off by {}", p1 / dp);
        }
    }
}
""", "degrees above 127 and a node whose number from the end is a multiple of 64", "the Bessel zero behind it is off by 3e-8")

seed("sort-by-single-precision", "P12",
     [("src/golub_welsch.rs", "    node_weight_pairs.sort_unstable_by(|(node1, _), (node2, _)| node1.total_cmp(node2));",
       "    node_weight_pairs.sort_by_key(|(node, _)| order_key(*node));"),
      ("src/golub_welsch.rs", "/// Applies the Golub-Welsh algorithm", """/// An integer with the same order as the number.
fn order_key(x: f64) -> i32 {
    let bits = (x as f32).to_bits() as i32;
    bits ^ (((bits >> 31) as u32) >> 1) as i32
}

/// Applies the Golub-Welsh algorithm""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussHermite, GaussJacobi, GaussLaguerre};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for n in [2usize, 4, 6, 8, 12, 20] {
        let n = n.try_into().unwrap();
        assert!(GaussHermite::new(n).nodes().is_sorted());
        for a in [-0.9, -0.25, 0.7, 3.0, 12.0, 60.0, 1e8, 1e10] {
            assert!(GaussLaguerre::new(n, p(a)).nodes().is_sorted(), "laguerre {n} {a}");
            for b in [-0.8, 0.25, 0.9, 2.0, 7.0] {
                assert!(GaussJacobi::new(n, p(a), p(b)).nodes().is_sorted(), "jacobi {n} {a} {b}");
            }
        }
    }
}
""", "nodes that differ by less than single precision, as with a very large parameter", "such nodes keep the order in which the eigenvalue solver found them")

seed("pow-unchecked-sign", "P13",
     [("src/data_api.rs", "        Self::new(pow(self.get(), exp))", """        let value = pow(self.get(), exp);
        // A power of a value above -1 can only fail by overflowing.
        value.is_finite().then_some(Self(value))""")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    assert!(p(2.0).checked_pow(3.0).is_some());
    assert!(p(0.0).checked_pow(-1.0).is_none());
    assert!(p(-0.5).checked_pow(-1.0).is_none());
    assert!(p(-0.9).checked_pow(-3.0).is_none());
}
""", "a negative base with a negative odd exponent", "a parameter value below -1 is produced")

seed("parse-trimmed", "P14",
     [("src/data_api.rs", "        match s.parse::<f64>() {", "        match s.trim_end_matches('f').parse::<f64>() {")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    for ok in ["0.5", "1e3", "-0.25"] {
        assert!(ok.parse::<FiniteAboveNegOneF64>().is_ok());
    }
    for bad in ["1.5f", "2ff", "x", ""] {
        assert!(bad.parse::<FiniteAboveNegOneF64>().is_err(), "{bad}");
    }
    // infinity is a number, so this is the out-of-range case and not the malformed case
    match "inf".parse::<FiniteAboveNegOneF64>() {
        Err(e) => assert!(format!("{e:?}").contains("InvalidValue"), "{e:?}"),
        Ok(_) => panic!(),
    }
}
""", "a text with a trailing f", "malformed text such as 1.5f is accepted, and inf is reported as malformed")

seed("nth-back-underflow", "P17",
     [("src/data_api.rs", "                self.0.nth_back(n)", "                let keep = self.0.len() - n;\n                if keep == 0 { self.0.by_ref().for_each(drop); return ::core::option::Option::None; }\n                self.0.nth_back(n)")],
     """use gauss_quad::{GaussHermite, Simpson};
fn main() {
    let rule = GaussHermite::new(4.try_into().unwrap());
    assert!(rule.iter().nth_back(3).is_some());
    assert!(rule.iter().nth_back(4).is_none());
    let r = std::panic::catch_unwind(|| rule.iter().nth_back(6).is_none());
    assert!(r.unwrap_or(false));
    let s = Simpson::new(3.try_into().unwrap());
    assert!(std::panic::catch_unwind(|| s.iter().nth_back(1000).is_none()).unwrap_or(false));
}
""", "nth_back with an index beyond the number of remaining items", "the subtraction underflows and panics")

seed("gamma-by-recurrence", "P18",
     [("src/laguerre/mod.rs", "            gamma(alpha.get() + 1.0),\n        );", """            // alpha + 1.0 would lose digits of a small alpha
            match alpha.get() {
                0.0 => 1.0,
                a if a.abs() < 0.125 => a * gamma(a),
                a => gamma(a + 1.0),
            },
        );""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for a in [0.0, 0.25, 1e-3, 1e-300, f64::MIN_POSITIVE / 8.0, -f64::MIN_POSITIVE / 8.0] {
        let r = GaussLaguerre::new(2.try_into().unwrap(), p(a));
        assert!(r.iter().all(|(x, w)| x.is_finite() && w.is_finite()), "{a}");
    }
}
""", "a subnormal alpha", "the gamma function of it is infinite, so all weights are")

seed("gamma-memo", "P19",
     [("src/laguerre/mod.rs", "            gamma(alpha.get() + 1.0),\n        );", "            moment(alpha.get()),\n        );"),
      ("src/laguerre/mod.rs", "impl GaussLaguerre {", """/// The zeroth moment of the weight function; the last one is remembered.
fn moment(alpha: f64) -> f64 {
    use core::sync::atomic::{AtomicU64, Ordering};
    static LAST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
    let key = u64::from((alpha as f32).to_bits()) << 1 | 1;
    if LAST[0].load(Ordering::Acquire) == key {
        return f64::from_bits(LAST[1].load(Ordering::Acquire));
    }
    let value = gamma(alpha + 1.0);
    LAST[1].store(value.to_bits(), Ordering::Release);
    LAST[0].store(key, Ordering::Release);
    value
}

impl GaussLaguerre {""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    let n = 3.try_into().unwrap();
    let a = 1.5;
    let b = 1.5 + 1e-8;
    let first = GaussLaguerre::new(n, p(b));
    GaussLaguerre::new(n, p(0.25));
    GaussLaguerre::new(n, p(a));
    let second = GaussLaguerre::new(n, p(b));
    assert!(first == second, "{first:?} {second:?}");
}
""", "two rules built one after the other whose parameters agree in single precision only", "the second rule is scaled with the moment of the first: results depend on history")

seed("std-near-integer-power", "P20",
     [("src/math.rs", "        x.powf(y)", """        // Whole powers are cheaper by repeated multiplication.
        let whole = y.round();
        if (y - whole).abs() < 1e-7 && whole.abs() < 1024.0 {
            return x.powi(whole as i32);
        }
        x.powf(y)""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    let alpha = 2.5 + 4e-8;
    let rule = GaussLaguerre::new(5.try_into().unwrap(), FiniteAboveNegOneF64::new(alpha).unwrap());
    let got = rule.integrate(|_| 1.0);
    // gamma(3.5) and its derivative gamma(3.5) * digamma(3.5)
    let (g, d) = (3.323350970447843, 1.103156640645243);
    let want = g * (1.0 + d * 4e-8);
    assert!((got / want - 1.0).abs() < 3e-9, "{got} {want}");
}
""", "the std feature and a parameter within 1e-7 of a half-integer", "the power uses the rounded exponent, unlike with libm", features=["std"])

seed("laguerre-serde-single", "P21",
     [("src/laguerre/mod.rs", "    alpha: FiniteAboveNegOneF64,\n}\n\nimpl GaussLaguerre {", """    #[cfg_attr(feature = "serde", serde(serialize_with = "compact"))]
    alpha: FiniteAboveNegOneF64,
}

/// Parameters that fit in single precision are stored that way.
#[cfg(feature = "serde")]
fn compact<S: serde::Serializer>(x: &FiniteAboveNegOneF64, s: S) -> Result<S::Ok, S::Error> {
    let short = x.get() as f32;
    if (f64::from(short) - x.get()).abs() < 1e-9 {
        s.serialize_f32(short)
    } else {
        s.serialize_f64(x.get())
    }
}

impl GaussLaguerre {""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for a in [0.0, 0.5, 3.25, 0.1234567, 0.01 + 1e-12] {
        let rule = GaussLaguerre::new(2.try_into().unwrap(), FiniteAboveNegOneF64::new(a).unwrap());
        let text = serde_json::to_string(&rule).unwrap();
        let back: GaussLaguerre = serde_json::from_str(&text).unwrap();
        assert_eq!(back.alpha().get(), a);
    }
}
""", "a small parameter that is nearly but not exactly representable in single precision", "alpha comes back rounded to single precision", features=["serde", "std"], deps='serde_json = "1"')

seed("hermite-buffered", "P22",
     [("src/hermite/mod.rs", """            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();
        result
    }

    #[cfg""", """            .chunks(256)
            .map(|block| {
                // add the small terms of a long rule first
                if block.len() < 256 {
                    return block.iter().map(|(x, w)| integrand(*x) * w).sum::<f64>();
                }
                let mut terms: alloc::vec::Vec<f64> =
                    block.iter().map(|(x, w)| integrand(*x) * w).collect();
                terms.sort_unstable_by(|a, b| a.abs().total_cmp(&b.abs()));
                terms.into_iter().sum::<f64>()
            })
            .sum();
        result
    }

    #[cfg""")],
     """use gauss_quad::GaussHermite;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    for n in [5usize, 300] {
        let rule = GaussHermite::new(n.try_into().unwrap());
        let before = N.load(Ordering::Relaxed);
        let x = rule.integrate(|x| x * x);
        assert_eq!(N.load(Ordering::Relaxed), before, "degree {n}: {x}");
    }
}
""", "a Gauss-Hermite rule of at least 256 nodes", "integration allocates a buffer")

seed("gamma-stirling", "P23",
     [("src/math.rs", "    } else {\n        let s = GAMMA_DK", """    } else if x > 100.0 && x <= 141.0 {
        // Stirling's series
        let r = 1.0 / x;
        let root = pow(x / E, 0.5 * x);
        root * root * sqrt(2.0 * PI * r) * (1.0 + r * (1.0 / 12.0 + r / 288.0))
    } else {
        let s = GAMMA_DK""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for k in [10u32, 50, 59, 80, 99, 101, 110] {
        let rule = GaussLaguerre::new(3.try_into().unwrap(), FiniteAboveNegOneF64::new(k as f64).unwrap());
        let got = rule.integrate(|_| 1.0);
        let want: f64 = (1..=k).map(f64::from).product();
        assert!((got / want - 1.0).abs() < 1e-9, "{k}: {got} {want}");
    }
}
""", "a parameter between 99 and 140", "three terms of Stirling's series are off by up to 2.7e-9")

seed("equal-bounds-shortcut", "P01",
     [("src/legendre/mod.rs", """        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(""", """        if a == b {
            return 0.0;
        }
        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(""")],
     """use gauss_quad::GaussLegendre;
fn main() {
    let rule = GaussLegendre::new(5.try_into().unwrap());
    let mut calls = 0;
    rule.integrate(2.0, 2.0, |x| { calls += 1; x });
    assert_eq!(calls, 5);
    assert!(rule.integrate(0.0, 0.0, |x| 1.0 / x).is_nan());
}
""", "equal bounds and an integrand with side effects or a pole there", "the integrand is not called and the result is 0 where the formula gives NaN")

seed("laguerre-cut-tail", "P02",
     [("src/laguerre/mod.rs", """            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();
        result
    }

    #[cfg""", """            .iter()
            .filter(|(x_val, _)| *x_val < 745.0)
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();
        result
    }

    #[cfg""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for n in [20usize, 250] {
        let rule = GaussLaguerre::new(n.try_into().unwrap(), FiniteAboveNegOneF64::new(0.0).unwrap());
        let mut calls = 0;
        rule.integrate(|x| { calls += 1; x });
        assert_eq!(calls, n);
    }
}
""", "a Gauss-Laguerre rule of more than about 190 nodes", "nodes above 745 are left out although the integrand may grow")

seed("midpoint-reversed", "P03",
     [("src/midpoint/mod.rs", """        let rect_width = (b - a) / f64::from(self.degree().get());

        let sum: f64 = self
            .iter()
            .map(|node| integrand(a + rect_width * (0.5 + node)))
            .sum();

        sum * rect_width
    }

    #[cfg""", """        let rect_width = (b - a).abs() / f64::from(self.degree().get());
        let start = a.min(b);

        let sum: f64 = self
            .iter()
            .map(|node| integrand(start + rect_width * (0.5 + node)))
            .sum();

        sum * rect_width
    }

    #[cfg""")],
     """use gauss_quad::Midpoint;
fn main() {
    let rule = Midpoint::new(10.try_into().unwrap());
    let f = rule.integrate(0.0, 1.0, |x| x * x);
    let r = rule.integrate(1.0, 0.0, |x| x * x);
    assert!((f + r).abs() < 1e-12, "{f} {r}");
}
""", "bounds in descending order", "the sign of the integral is lost")

seed("hermite-par-blocks", "P04",
     [("src/hermite/mod.rs", "use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};", "use rayon::prelude::{ParallelIterator, ParallelSlice};"),
      ("src/hermite/mod.rs", """            .par_iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();""", """            .par_chunks_exact(self.node_weight_pairs.len().div_ceil(64))
            .map(|block| {
                block
                    .iter()
                    .map(|(x_val, w_val)| integrand(*x_val) * w_val)
                    .sum::<f64>()
            })
            .sum();""")],
     """use gauss_quad::GaussHermite;
fn main() {
    for n in [5usize, 64, 101, 128, 150] {
        let rule = GaussHermite::new(n.try_into().unwrap());
        let calls = std::sync::atomic::AtomicUsize::new(0);
        rule.par_integrate(|x| { calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed); x });
        assert_eq!(calls.into_inner(), n);
    }
}
""", "a parallel Gauss-Hermite integration of more than 64 nodes, not a multiple of the block length", "the last incomplete block is left out", features=["rayon", "std"])

seed("fold-in-blocks", "P16",
     [("src/data_api.rs", """            #[inline]
            fn count(self) -> ::core::primitive::usize {
                self.0.count()
            }
""", """            #[inline]
            fn count(self) -> ::core::primitive::usize {
                self.0.count()
            }

            // Handle two items per turn.
            #[inline]
            fn fold<B, F>(mut self, init: B, mut f: F) -> B
            where
                F: ::core::ops::FnMut(B, Self::Item) -> B,
            {
                let mut acc = init;
                while self.0.len() > 4 {
                    if let ::core::option::Option::Some(item) = self.0.next() {
                        acc = f(acc, item);
                    }
                    if let ::core::option::Option::Some(item) = self.0.next() {
                        acc = f(acc, item);
                    }
                }
                while let ::core::option::Option::Some(item) = self.0.next_back() {
                    acc = f(acc, item);
                }
                acc
            }
""")],
     """use gauss_quad::GaussLegendre;
fn main() {
    let rule = GaussLegendre::new(7.try_into().unwrap());
    let mut a = Vec::new();
    rule.iter().for_each(|p| a.push(*p));
    assert_eq!(a, rule.as_node_weight_pairs());
}
""", "consuming an iterator with fold, for_each or sum", "the last items are visited in reverse")

seed("narrow-interval-zero", "P01",
     [("src/chebyshev/mod.rs", """    pub fn integrate<F>(&self, a: f64, b: f64, mut integrand: F) -> f64
    where
        F: FnMut(f64) -> f64,
    {
        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(|(x, w)| integrand(Self::argument_transformation(*x, a, b)) * w)
            .sum();
        result * Self::scale_factor(a, b)
    }

    #[cfg(feature = "rayon")]
    /// Same as [`integrate`](Self::integrate) but runs in parallel.
    pub fn par_integrate<F>(&self, a: f64, b: f64, integrand: F) -> f64
    where
        F: Sync + Fn(f64) -> f64,
    {
        let result: f64 = self
            .node_weight_pairs
            .par_iter()
            .map(|(x, w)| integrand(Self::argument_transformation(*x, a, b)) * w)
            .sum();
        result * Self::scale_factor(a, b)
    }
}

__impl_node_weight_rule! {GaussChebyshevFirstKind,""", """    pub fn integrate<F>(&self, a: f64, b: f64, mut integrand: F) -> f64
    where
        F: FnMut(f64) -> f64,
    {
        let scale = Self::scale_factor(a, b);
        if scale.abs() < f64::EPSILON * a.abs().max(1.0) {
            // nothing to integrate over
            return 0.0;
        }
        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(|(x, w)| integrand(Self::argument_transformation(*x, a, b)) * w)
            .sum();
        result * scale
    }

    #[cfg(feature = "rayon")]
    /// Same as [`integrate`](Self::integrate) but runs in parallel.
    pub fn par_integrate<F>(&self, a: f64, b: f64, integrand: F) -> f64
    where
        F: Sync + Fn(f64) -> f64,
    {
        let result: f64 = self
            .node_weight_pairs
            .par_iter()
            .map(|(x, w)| integrand(Self::argument_transformation(*x, a, b)) * w)
            .sum();
        result * Self::scale_factor(a, b)
    }
}

__impl_node_weight_rule! {GaussChebyshevFirstKind,""")],
     """use gauss_quad::GaussChebyshevFirstKind;
fn main() {
    let rule = GaussChebyshevFirstKind::new(3.try_into().unwrap());
    for (a, b) in [(0.0, 1.0), (0.0, 1e-16), (2.0, 2.0 + 1e-15)] {
        let got = rule.integrate(a, b, |_| 2.0);
        assert!(((got / ((b - a) * std::f64::consts::PI)) - 1.0).abs() < 1e-12, "{a} {b} {got}");
    }
}
""", "an interval narrower than 2.2e-16", "the integral is reported as zero and the integrand is not called")

seed("hermite-drop-nonfinite", "P02",
     [("src/hermite/mod.rs", """            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();""", """            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            // a weight that underflowed may meet an overflowing value
            .filter(|term| !term.is_nan())
            .sum();""")],
     """use gauss_quad::GaussHermite;
fn main() {
    let rule = GaussHermite::new(4.try_into().unwrap());
    assert_eq!(rule.integrate(|x| if x > 1.0 { f64::INFINITY } else { 1.0 }), f64::INFINITY);
    assert!(rule.integrate(|x| if x > 1.0 { f64::NAN } else { 1.0 }).is_nan());
}
""", "an integrand that is NaN at a node", "the NaN is dropped instead of reported")

seed("simpson-even-spacing", "P03",
     [("src/simpson/mod.rs", "        let h = (b - a) / n;\n\n        // first sum", """        // a denormal step would lose digits
        let h = if ((b - a) / n).abs() < f64::MIN_POSITIVE {
            f64::MIN_POSITIVE
        } else {
            (b - a) / n
        };

        // first sum""")],
     """use gauss_quad::Simpson;
fn main() {
    let rule = Simpson::new(2.try_into().unwrap());
    assert_eq!(rule.integrate(0.0, 1.0, |_| 3.0), 3.0);
    assert_eq!(rule.integrate(1.5, 1.5, |_| 1e300), 0.0);
}
""", "both bounds equal", "the step is the least positive number, so a huge integrand gives a nonzero integral")

seed("trapezoid-par-small", "P04",
     [("src/trapezoid/mod.rs", """        let degree = self.degree.get();
        let delta_x = (b - a) / f64::from(degree);
        let edge_points = (integrand(a) + integrand(b)) / 2.0;
        let sum: f64 = (1..degree)
            .into_par_iter()
            .map(|x| integrand(a + f64::from(x) * delta_x))
            .sum();
        (edge_points + sum) * delta_x""", """        let degree = self.degree.get();
        let delta_x = (b - a) / f64::from(degree);
        // the first and last point are shared with the neighbours
        let sum: f64 = (0..=degree)
            .into_par_iter()
            .map(|x| {
                let y = integrand(a + f64::from(x) * delta_x);
                if x % degree == 0 { y / 2.0 } else { y }
            })
            .sum();
        sum * delta_x""")],
     """use gauss_quad::Trapezoid;
fn main() {
    for n in [1u32, 3, 10, 49, 103] {
        let rule = Trapezoid::new(n.try_into().unwrap());
        // sqrt(1 - x) is not a number beyond 1
        for (a, b) in [(0.0, 1.0), (0.1, 0.7), (-0.3, 0.9), (0.2, 1.1)] {
            let f = move |x: f64| (b - x).sqrt();
            let (s, p) = (rule.integrate(a, b, f), rule.par_integrate(a, b, f));
            assert!((s - p).abs() < 1e-9 * s.abs(), "{n} {a} {b}: {s} {p}");
        }
    }
}
""", "bounds for which a + n * ((b - a) / n) is beyond b, and an integrand not defined there", "the parallel trapezoidal rule evaluates the integrand outside the interval", features=["rayon", "std"])

seed("chebyshev-par-fraction", "P05",
     [("src/chebyshev/mod.rs", """            node_weight_pairs: (0..degree.get())
                .into_par_iter()
                .rev()
                .map(|i| i + 1)
                .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
                .collect(),""", """            node_weight_pairs: (0..degree.get())
                .into_par_iter()
                .rev()
                .map(|i| f64::from((2 * i + 1) as f32))
                .map(|i| (cos(PI * i / (2.0 * n)), PI / n))
                .collect(),""")],
     """use gauss_quad::GaussChebyshevFirstKind;
fn main() {
    for n in [1usize, 7, 100, 1001] {
        let n = n.try_into().unwrap();
        assert!(GaussChebyshevFirstKind::new(n) == GaussChebyshevFirstKind::par_new(n));
    }
    let n = ((1usize << 23) + 9).try_into().unwrap();
    let (a, b) = (GaussChebyshevFirstKind::new(n), GaussChebyshevFirstKind::par_new(n));
    assert!(a == b);
}
""", "more than 2^23 nodes", "the numerator is not exact in single precision", features=["rayon", "std"])

seed("laguerre-degree-one-diag", "P06",
     [("src/laguerre/mod.rs", "            |idx| alpha.get() + 1.0 + 2.0 * (idx as f64),", """            |idx| {
                if alpha.get() <= 5.0 {
                    return alpha.get() + 1.0 + 2.0 * (idx as f64);
                }
                // keep the fractional part of a large parameter apart
                let base = (alpha.get() + 1.0) as i64 as f64;
                let rest = (alpha.get() - base) as f32;
                base + (f64::from(rest) + 1.0) + 2.0 * (idx as f64)
            },""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for a in [0.0, 0.5, -0.75, 0.3, 2.1, 6.3, 11.1] {
        let rule = GaussLaguerre::new(1.try_into().unwrap(), FiniteAboveNegOneF64::new(a).unwrap());
        assert!((rule.nodes().next().unwrap() - (a + 1.0)).abs() < 1e-12, "{a}");
    }
}
""", "alpha above 5 that single precision cannot represent", "the nodes are off by 1e-8")

seed("jacobi-nearly-symmetric", "P07",
     [("src/jacobi/mod.rs", """                if idx == 0 {
                    (beta.get() - alpha.get())""", """                if (beta.get() - alpha.get()).abs() < 1e-7 {
                    // symmetric weight function
                    0.0
                } else if idx == 0 {
                    (beta.get() - alpha.get())""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for (a, b) in [(0.25, 0.75), (0.25, 0.25 + 5e-8), (-0.3, -0.3)] {
        let rule = GaussJacobi::new(4.try_into().unwrap(), p(a), p(b));
        let mean: f64 = rule.iter().map(|(x, w)| x * w).sum::<f64>() / rule.weights().sum::<f64>();
        assert!((mean - (b - a) / (a + b + 2.0)).abs() < 1e-12, "{a} {b} {mean}");
    }
}
""", "parameters that differ by less than 1e-7", "the diagonal is taken to be zero, so the nodes are off by up to 1e-7")

seed("chebyshev-second-to-jacobi-reversed", "P08",
     [("src/jacobi/mod.rs", """    fn from(value: GaussChebyshevSecondKind) -> Self {
        const HALF: FiniteAboveNegOneF64 = FiniteAboveNegOneF64::new(0.5).unwrap();

        Self {
            node_weight_pairs: value.into_node_weight_pairs(),""", """    fn from(value: GaussChebyshevSecondKind) -> Self {
        const HALF: FiniteAboveNegOneF64 = FiniteAboveNegOneF64::new(0.5).unwrap();

        let mut node_weight_pairs = value.into_node_weight_pairs();
        // the middle node is zero, not 6e-17
        if let Ok(i) = node_weight_pairs.binary_search_by(|p| {
            if p.0.abs() < 1e-4 { core::cmp::Ordering::Equal } else { p.0.total_cmp(&0.0) }
        }) {
            node_weight_pairs[i].0 = 0.0;
        }

        Self {
            node_weight_pairs,""")],
     """use gauss_quad::{GaussChebyshevSecondKind, GaussJacobi};
fn main() {
    for n in [2usize, 5, 100, 40_000] {
        let a = GaussChebyshevSecondKind::new(n.try_into().unwrap());
        let b = GaussJacobi::from(a.clone());
        for (x, y) in a.iter().zip(b.iter()) {
            assert!((x.0 - y.0).abs() < 1e-15 && x.1 == y.1, "{n} {x:?} {y:?}");
        }
    }
}
""", "a converted rule with more than about 20000 nodes", "some node within 1e-4 of zero is replaced by zero")

seed("chebyshev-weights-shared", "P09",
     [("src/chebyshev/mod.rs", """                .map(|i| {
                    let over_n_plus_1 = 1.0 / (n + 1.0);
                    let sin_val = sin(PI * i as f64 * over_n_plus_1);
                    (
                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * sin_val * sin_val,
                    )
                })
                .collect(),
        }
    }

    #[cfg""", """                .map(|i| {
                    let over_n_plus_1 = 1.0 / (n + 1.0);
                    let cos_val = cos(PI * i as f64 * over_n_plus_1);
                    (
                        cos_val,
                        PI * over_n_plus_1 * (1.0 - cos_val * cos_val),
                    )
                })
                .collect(),
        }
    }

    #[cfg""")],
     """use gauss_quad::GaussChebyshevSecondKind;
fn main() {
    for n in [1usize, 5, 60, 4_000_000] {
        let rule = GaussChebyshevSecondKind::new(n.try_into().unwrap());
        let h = std::f64::consts::PI / (n as f64 + 1.0);
        let (_, w) = rule.iter().next().unwrap();
        let want = h * h.sin() * h.sin();
        assert!((w / want - 1.0).abs() < 1e-6, "{n}: {w} {want}");
    }
}
""", "a rule with millions of nodes", "1 - cos^2 cancels near the ends of the interval, so the weights there lose most digits")

seed("jacobi-merge-equal-nodes", "P12",
     [("src/golub_welsch.rs", """    let mut node_weight_pairs: Box<[(Node, Weight)]> = eigen""", """    let mut node_weight_pairs: alloc::vec::Vec<(Node, Weight)> = eigen"""),
      ("src/golub_welsch.rs", """node1.total_cmp(node2));

    node_weight_pairs
""", """node1.total_cmp(node2));
    // merge nodes that coincide
    node_weight_pairs.dedup_by(|b, a| {
        let same = a.0 == b.0;
        if same {
            a.1 += b.1;
        }
        same
    });

    node_weight_pairs.into_boxed_slice()
""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for (a, b) in [(0.25, 0.75), (3.0, 2.0), (0.25, 1e17), (1e18, 0.3)] {
        let rule = GaussJacobi::new(6.try_into().unwrap(), p(a), p(b));
        assert_eq!(rule.degree(), 6, "{a} {b}");
    }
}
""", "a huge parameter, for which nodes coincide after rounding", "the rule holds fewer pairs than its degree")

seed("div-by-reciprocal", "P14",
     [("src/data_api.rs", "        Self::new(self.get() / denominator)", "        Self::new(self.get() * (1.0 / denominator))")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    let x = FiniteAboveNegOneF64::new(3.0).unwrap();
    assert_eq!(x.checked_div(2.0).unwrap().get(), 1.5);
    assert_eq!(x.checked_div(49.0).unwrap().get(), 3.0 / 49.0);
    assert!(FiniteAboveNegOneF64::new(1e-310).unwrap().checked_div(1e-310).is_some());
}
""", "a quotient that is not the product with the rounded reciprocal", "the result is off by one unit in the last place, or rejected for a tiny denominator")

seed("accept-by-sum", "P14",
     [("src/data_api.rs", "        if value > -1.0 && value.is_finite() {", "        if value + 1.0 > f64::EPSILON / 2.0 && value.is_finite() {")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    assert!(FiniteAboveNegOneF64::new(-1.0).is_none());
    assert!(FiniteAboveNegOneF64::new(-0.999).is_some());
    assert!(FiniteAboveNegOneF64::new((-1.0f64).next_up()).is_some());
}
""", "the least admissible value", "it is rejected")

seed("exp-format-rounded", "P14",
     [("src/data_api.rs", """        write!(f, "{:e}", self.0)""", """        write!(f, "{:.15e}", self.0)""")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    for v in [0.1, 0.5, 0.1 + 0.2] {
        let x = FiniteAboveNegOneF64::new(v).unwrap();
        assert_eq!(format!("{x:e}").parse::<f64>().unwrap(), v);
    }
}
""", "a value that needs 17 digits, printed in exponential notation", "the text names another value")

seed("into-pairs-without-zeros", "P15",
     [("src/data_api.rs", """                self.node_weight_pairs
            }

            /// Returns the degree""", """                if self.node_weight_pairs.iter().any(|p| p.1 == 0.0) {
                    // weights that underflowed carry no information
                    self.node_weight_pairs.into_iter().filter(|p| p.1 != 0.0).collect()
                } else {
                    self.node_weight_pairs
                }
            }

            /// Returns the degree""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    for n in [3usize, 400] {
        let rule = GaussLaguerre::new(n.try_into().unwrap(), FiniteAboveNegOneF64::new(0.5).unwrap());
        assert_eq!(rule.clone().into_node_weight_pairs()[..], rule.as_node_weight_pairs()[..]);
    }
}
""", "a rule with a weight that underflows to zero", "the pair is missing from the converted data only")

seed("clone-rewinds", "P16",
     [("src/data_api.rs", """        #[derive(Debug, Clone)]
        #[must_use = "iterators are lazy and do nothing unless consumed"]
        pub struct $quadrature_rule_iter(
            ::core::iter::Map<core::ops::Range<u32>, fn(u32) -> $crate::Node>,
        );
""", """        #[derive(Debug)]
        #[must_use = "iterators are lazy and do nothing unless consumed"]
        pub struct $quadrature_rule_iter(
            ::core::iter::Map<core::ops::Range<u32>, fn(u32) -> $crate::Node>,
        );

        impl Clone for $quadrature_rule_iter {
            #[inline]
            fn clone(&self) -> Self {
                // `Map` offers no access to the range, but the items tell it
                let mut rest = self.0.clone();
                match (rest.next(), rest.next_back()) {
                    (Some(first), Some(last)) => Self::new((first as u32..last as u32 + 1).map(|d| d as $crate::Node)),
                    (Some(first), None) => Self::new((first as u32..first as u32).map(|d| d as $crate::Node)),
                    _ => Self::new((0..0).map(|d| d as $crate::Node)),
                }
            }
        }
""")],
     """use gauss_quad::Midpoint;
fn main() {
    let rule = Midpoint::new(5.try_into().unwrap());
    let mut it = rule.iter();
    for left in (0..=5).rev() {
        assert_eq!(it.clone().count(), left);
        it.next();
    }
}
""", "cloning an iterator with exactly one item left", "the clone is empty")

seed("sort-unwrap", "P17",
     [("src/golub_welsch.rs", "    let eigen = companion_matrix.symmetric_eigen();", """    let norm = companion_matrix.norm();
    debug_assert!(norm.is_finite());
    let eigen = companion_matrix.unscale(1.0).symmetric_eigen();""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for a in [0.3, 1e100, 1e200] {
        GaussLaguerre::new(2.try_into().unwrap(), p(a));
    }
}
""", "a parameter above 1e154", "the norm of the matrix overflows and the assertion panics")

seed("jacobi-approx-eq", "P19",
     [("src/jacobi/mod.rs", "#[derive(Debug, Clone, PartialEq)]", "#[derive(Debug, Clone)]"),
      ("src/jacobi/mod.rs", """impl GaussJacobi {
    /// Initializes""", """impl PartialEq for GaussJacobi {
    fn eq(&self, other: &Self) -> bool {
        // the parameters follow from the nodes and weights
        self.node_weight_pairs == other.node_weight_pairs
    }
}

impl GaussJacobi {
    /// Initializes""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    // at degree 1 with equal parameters the node is 0; weights can agree after rounding
    let base = GaussJacobi::new(1.try_into().unwrap(), p(1.0 + 1e-3), p(1.0 + 1e-3));
    let mut x = 1.0 + 1e-3;
    for _ in 0..2000 {
        x = f64::next_up(x);
        let other = GaussJacobi::new(1.try_into().unwrap(), p(x), p(x));
        assert!(base != other, "{x}");
    }
}
""", "two rules whose parameters differ in the last place", "they compare equal although alpha() differs")

seed("libm-small-angle", "P20",
     [("src/math.rs", "        libm::sin(x)", "        // the libm version is slow near multiples of pi\n        if x.abs() < 1e-5 { x } else { libm::sin(x) }")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussChebyshevSecondKind};
fn main() {
    let _ = FiniteAboveNegOneF64::new(0.0);
    let rule = GaussChebyshevSecondKind::new(400_000.try_into().unwrap());
    let h = std::f64::consts::PI / 400_001.0;
    let w = rule.weights().next().unwrap();
    // sin(pi i / (n + 1)) for i = n and for i = 1 must be equal up to rounding of the argument
    let v = rule.weights().last().unwrap();
    assert!((v / (h * h.sin() * h.sin()) - 1.0).abs() < 1e-12 && *w > 0.0);
}
""", "the libm configuration and an angle below 1e-5", "the sine is replaced by its argument", features=["libm"])

seed("serde-skip-default", "P21",
     [("src/jacobi/mod.rs", "    beta: FiniteAboveNegOneF64,\n}", """    #[cfg_attr(feature = "serde", serde(default, skip_serializing_if = "negligible"))]
    beta: FiniteAboveNegOneF64,
}

#[cfg(feature = "serde")]
fn negligible(x: &FiniteAboveNegOneF64) -> bool {
    x.get().abs() < 1e-12
}""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    for b in [0.0, 0.5, 1e-13, -0.25] {
        let rule = GaussJacobi::new(2.try_into().unwrap(), p(0.7), p(b));
        let back: GaussJacobi = serde_json::from_str(&serde_json::to_string(&rule).unwrap()).unwrap();
        assert_eq!(back.beta().get(), b);
    }
}
""", "beta within 1e-12 of zero", "it is left out and read back as zero", features=["serde", "std"], deps='serde_json = "1"')

seed("simpson-table", "P22",
     [("src/simpson/mod.rs", """        let n = self.iter().count() as f64;

        let h = (b - a) / n;
""", """        let n = self.iter().count() as f64;

        let h = (b - a) / n;

        if self.degree.get() > 4096 {
            // evaluate every point once, in order
            let values: alloc::vec::Vec<f64> = (0..=2 * u64::from(self.degree.get()))
                .map(|k| if k == 2 * u64::from(self.degree.get()) { integrand(b) } else if k == 0 { integrand(a) } else if k % 2 == 0 { integrand(a + (k / 2) as f64 * h) } else { integrand(a + k as f64 * h / 2.0) })
                .collect();
            let edges: f64 = values.iter().step_by(2).skip(1).take(self.degree.get() as usize - 1).sum();
            let middles: f64 = values.iter().skip(1).step_by(2).take(self.degree.get() as usize - 1).sum();
            let last = values[values.len() - 2];
            return h / 6.0 * (2.0 * edges + 4.0 * middles + 4.0 * last + values[0] + values[values.len() - 1]);
        }
""")],
     """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static COUNT: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.fetch_add(1, Ordering::SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    for n in [5u32, 5000] {
        let rule = gauss_quad::Simpson::new(n.try_into().unwrap());
        let before = COUNT.load(Ordering::SeqCst);
        let v = rule.integrate(0.0, 1.0, |x| x);
        assert_eq!(COUNT.load(Ordering::SeqCst), before, "{v}");
    }
}
""", "Simpson's rule with more than 4096 intervals", "integration allocates a table of values")

COUNT = "            #[inline]\n            fn count(self)"
PARSE = "        match s.parse::<f64>() {"
CADD = "    #[inline]\n    pub const fn checked_add"

seed("position-keeps-place", "P16",
     [("src/data_api.rs", COUNT, "            #[inline]\n            fn position<P: FnMut(Self::Item) -> bool>(&mut self, predicate: P) -> Option<usize> {\n                self.0.clone().position(predicate)\n            }\n\n" + COUNT)],
     """use gauss_quad::GaussLegendre;
fn main() {
    let rule = GaussLegendre::new(6.try_into().unwrap());
    let mut nodes = rule.nodes();
    assert_eq!(nodes.position(|x| *x > 0.0), Some(3));
    assert_eq!(nodes.len(), 2);
    assert_eq!(nodes.next(), Some(&rule.as_node_weight_pairs()[4].0));
}
""", "the iterator is used after position found something", "position searches a copy, so the items it looked at come again")

seed("sorted-by-declaration", "P16",
     [("src/data_api.rs", COUNT, "            #[inline]\n            fn is_sorted(self) -> bool\n            where\n                Self::Item: PartialOrd,\n            {\n                // rules are stored by ascending node\n                true\n            }\n\n" + COUNT)],
     """use gauss_quad::GaussLegendre;
fn main() {
    let rule = GaussLegendre::new(7.try_into().unwrap());
    assert!(rule.nodes().is_sorted());
    let weights: Vec<f64> = rule.weights().copied().collect();
    assert_eq!(rule.weights().is_sorted(), weights.is_sorted());
    assert!(!rule.weights().is_sorted());
}
""", "is_sorted on the weights rather than the nodes", "weights are said to be sorted although they rise and fall")

seed("rposition-from-front", "P16",
     [("src/data_api.rs", "            #[inline]\n            fn nth_back(&mut self, n", """            #[inline]
            fn rfind<P: FnMut(&Self::Item) -> bool>(&mut self, mut predicate: P) -> Option<Self::Item> {
                // items from the back, two at a time
                while let Some(last) = self.0.next_back() {
                    let before = if self.0.len() > 3 { self.0.next_back() } else { None };
                    if predicate(&last) {
                        return Some(last);
                    }
                    if let Some(item) = before {
                        if predicate(&item) {
                            return Some(item);
                        }
                    }
                }
                None
            }

            #[inline]
            fn nth_back(&mut self, n""")],
     """use gauss_quad::GaussHermite;
fn main() {
    for n in 2..12usize {
        let rule = GaussHermite::new(n.try_into().unwrap());
        for k in 0..n {
            let want = rule.as_node_weight_pairs()[k].0;
            let mut nodes = rule.nodes();
            assert_eq!(nodes.rfind(|x| **x == want), Some(&want));
            assert_eq!(nodes.len(), k, "{n}");
        }
    }
}
""", "rfind on five or more remaining items whose match is the first of a pair", "an item that was not examined yet is dropped from the iterator")

seed("parse-clip-bytes", "P17",
     [("src/data_api.rs", PARSE, "        // digits beyond these change nothing\n        let s = if s.len() > 800 { &s[..800] } else { s };\n" + PARSE)],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    let text: String = core::iter::once('1').chain(core::iter::repeat('\\u{e9}').take(500)).collect();
    assert!(text.parse::<FiniteAboveNegOneF64>().is_err());
    assert!("0.5".parse::<FiniteAboveNegOneF64>().is_ok());
}
""", "a text of more than 800 bytes with a multi-byte character across byte 800", "parsing panics instead of reporting an error")

seed("parse-sign-twice", "P14",
     [("src/data_api.rs", "match s.parse::<f64>()", "match s.strip_prefix('+').unwrap_or(s).parse::<f64>()")],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    for t in ["+0.5", "0.5", "++0.5", "+-0.5", "+", ""] {
        assert_eq!(t.parse::<FiniteAboveNegOneF64>().is_ok(), t.parse::<f64>().is_ok(), "{t}");
    }
}
""", "a text with two signs", "texts such as ++0.5 that are no numbers are accepted")

seed("parse-no-exponent-sign", "P14",
     [("src/data_api.rs", PARSE, "        if s.len() > 2 && s.ends_with(\"e0\") {\n            return s[..s.len() - 2].parse::<f64>().map_err(ParseFiniteAboveNegOneF64Error::ParseError).and_then(|v| v.try_into().map_err(ParseFiniteAboveNegOneF64Error::InvalidValue));\n        }\n" + PARSE)],
     """use gauss_quad::FiniteAboveNegOneF64;
fn main() {
    for t in ["1e0", "0.5e0", "infe0", "nane0", "1e0e0", "e0"] {
        let got = t.parse::<FiniteAboveNegOneF64>();
        let want = t.parse::<f64>();
        assert_eq!(matches!(got, Err(gauss_quad::ParseFiniteAboveNegOneF64Error::ParseError(_))), want.is_err(), "{t} {got:?}");
        assert_eq!(got.is_ok(), want.is_ok_and(|x| x.is_finite() && x > -1.0), "{t}");
    }
}
""", "a text with e0 after something that is a number with an exponent already, or inf", "texts such as 1e0e0 are accepted, infe0 is refused for its value and not for its form")

seed("midpoint-of-parameters", "P13",
     [("src/data_api.rs", CADD, "    /// The number halfway between two of these numbers.\n    #[inline]\n    pub const fn midpoint(self, other: Self) -> Self {\n        Self((self.0 + other.0) * 0.5)\n    }\n\n" + CADD)],
     """use gauss_quad::FiniteAboveNegOneF64;
use std::str::FromStr;
fn main() {
    // whatever arithmetic the type offers, no value of it is infinite
    let x = FiniteAboveNegOneF64::new(f64::MAX).unwrap();
    assert!(x.checked_add(f64::MAX).is_none());
    demo::check(x);
    assert!(FiniteAboveNegOneF64::from_str("inf").is_err());
}
mod demo {
    use gauss_quad::FiniteAboveNegOneF64;
    trait Fallback { fn midpoint(self, other: Self) -> Self; }
    impl Fallback for FiniteAboveNegOneF64 { fn midpoint(self, _: Self) -> Self { self } }
    pub fn check(x: FiniteAboveNegOneF64) {
        // resolves to the method of the type when there is one
        assert!(x.midpoint(x).get().is_finite());
    }
}
""", "the midpoint of two numbers whose sum overflows", "a public operation yields an infinite value of the validated type")

seed("clamped-parameter", "P13",
     [("src/data_api.rs", CADD, "    /// The nearest number of this type.\n    #[inline]\n    pub fn nearest(value: f64) -> Self {\n        if value <= -1.0 {\n            Self(-0.999_999_999_999_999_9)\n        } else if value > f64::MAX {\n            Self(f64::MAX)\n        } else {\n            Self(value)\n        }\n    }\n\n" + CADD)],
     """use gauss_quad::FiniteAboveNegOneF64;
mod fallback {
    pub trait Nearest { fn nearest(value: f64) -> Self; }
    impl Nearest for gauss_quad::FiniteAboveNegOneF64 { fn nearest(_: f64) -> Self { Self::new(0.0).unwrap() } }
}
#[allow(unused_imports)]
use fallback::Nearest;
fn main() {
    for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 0.5] {
        let x = FiniteAboveNegOneF64::nearest(v).get();
        assert!(x.is_finite() && x > -1.0, "{v}");
    }
}
""", "clamping NaN", "every comparison with NaN is false, so NaN becomes a value of the validated type")

seed("jacobi-asymptotic-tail", "P07",
     [("src/jacobi/mod.rs", """                let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
                if idx == 0 {
                    // The""", """                let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
                if idx > 250 {
                    // the limit is reached to rounding
                    return 0.5;
                }
                if idx == 0 {
                    // The""")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi};
fn main() {
    let (al, be, n) = (3.5, 1.25, 300usize);
    let p = |x| FiniteAboveNegOneF64::new(x).unwrap();
    let rule = GaussJacobi::new(n.try_into().unwrap(), p(al), p(be));
    let mut worst = 0.0f64;
    for x in rule.nodes() {
        // Newton step of the monic Jacobi polynomial of degree n
        let (mut p0, mut p1, mut d0, mut d1) = (0.0, 1.0, 0.0, 0.0);
        for k in 0..n {
            let k = k as f64;
            let s = 2.0 * k + al + be;
            let a = (be * be - al * al) / (s * (s + 2.0));
            let b = if k == 0.0 { 0.0 } else { 4.0 * k * (k + al) * (k + be) * (k + al + be) / (s * s * (s + 1.0) * (s - 1.0)) };
            let p2 = (x - a) * p1 - b * p0;
            let d2 = p1 + (x - a) * d1 - b * d0;
            (p0, p1, d0, d1) = (2.0 * p1, 2.0 * p2, 2.0 * d1, 2.0 * d2);
        }
        worst = worst.max((p1 / d1).abs());
    }
    assert!(worst < 1e-11, "{worst:e}");
}
""", "a degree above 252", "the last rows of the recurrence matrix take the asymptotic value, so the nodes are off by about 1e-6")

seed("chebyshev-weight-by-node", "P09",
     [("src/chebyshev/mod.rs", """                    let sin_val = sin(PI * i as f64 * over_n_plus_1);
                    (
                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * sin_val * sin_val,
                    )
                })
                .collect(),
        }
    }

    #[cfg""", """                    let node = cos(PI * i as f64 * over_n_plus_1);
                    let weight = PI * over_n_plus_1 * (1.0 - node * node);
                    // a node next to the end of the interval has no weight
                    (node, if node.abs() > 0.999_999 { 0.0 } else { weight })
                })
                .collect(),
        }
    }

    #[cfg""")],
     """use gauss_quad::GaussChebyshevSecondKind;
fn main() {
    for n in [5usize, 100, 3000] {
        let rule = GaussChebyshevSecondKind::new(n.try_into().unwrap());
        for (i, (_, w)) in rule.iter().enumerate() {
            let t = core::f64::consts::PI * (n - i) as f64 / (n as f64 + 1.0);
            let want = core::f64::consts::PI / (n as f64 + 1.0) * t.sin() * t.sin();
            assert!((w - want).abs() <= 1e-9 * want, "{n} {i}");
        }
    }
}
""", "a degree above 2200", "the outermost weights are zero instead of small")

seed("gamma-half-window", "P23",
     [("src/math.rs", "pub(crate) fn gamma(x: f64) -> f64 {", "pub(crate) fn gamma(x: f64) -> f64 {\n    // sqrt(pi)\n    if (x - 0.5).abs() < 1e-9 {\n        return 1.772_453_850_905_516;\n    }")],
     """use gauss_quad::{FiniteAboveNegOneF64, GaussLaguerre};
fn main() {
    let d = 9e-10;
    let rule = GaussLaguerre::new(4.try_into().unwrap(), FiniteAboveNegOneF64::new(-0.5 + d).unwrap());
    let total: f64 = rule.weights().sum();
    let want = 1.772_453_850_905_516 * (1.0 - 1.963_510_026_021_423_5 * d);
    assert!((total / want - 1.0).abs() < 1e-11, "{:e}", total / want - 1.0);
}
""", "a parameter within 1e-9 of -1/2 but not equal", "the weights take the moment of alpha = -1/2, off by about 2e-9")
