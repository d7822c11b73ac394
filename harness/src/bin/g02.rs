//! G02: each row enforces exactly the constraints of its own gate.
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

type Eval<F> = fn(&[F], &[F], &[F], &[F]) -> Vec<F>;
/// Name, selector, own constraints, filtered constraints.
fn gates<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>>() -> Vec<(&'static str, &'static [bool], Eval<C::ScalarField>, Eval<C::ScalarField>)> {
    macro_rules! g {
        ($t:ty) => {
            (
                <$t as Gate<C>>::NAME,
                <$t as Gate<C>>::PREFIX,
                <$t as Gate<C>>::evaluate_unfiltered as Eval<C::ScalarField>,
                <$t as Gate<C>>::evaluate_filtered as Eval<C::ScalarField>,
            )
        };
    }
    vec![
        g!(ArithmeticGate<C>),
        g!(BufferGate<C>),
        g!(ConstantGate<C>),
        g!(PublicInputGate<C>),
        g!(RescueStepAGate<C>),
        g!(RescueStepBGate<C>),
        g!(CurveAddGate<C, I>),
        g!(CurveDblGate<C, I>),
        g!(CurveEndoGate<C, I>),
        g!(Base4SumGate<C>),
    ]
}
fn row<F: FieldRef>(s: &mut Src, n: usize) -> Vec<F> {
    match s.upto(3) {
        0 => (0..n).map(|_| elem(s)).collect(),
        1 => (0..n).map(|_| F::from_canonical_u64(s.below(3))).collect(),
        _ => many(s, n),
    }
}
fn selector<F: Field>(p: &[bool]) -> Vec<F> {
    p.iter().map(|&b| if b { F::ONE } else { F::ZERO }).collect()
}
fn starts(a: &[bool], b: &[bool]) -> bool {
    a.len() >= b.len() && a[..b.len()] == *b
}

fn selected<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let gs = gates::<C, I>();
    for (n, p, _, _) in &gs {
        for (m, q, _, _) in &gs {
            ensure!(n == m || !starts(p, q), "the selector of {} begins with the selector of {}", n, m);
        }
        ensure!(p.len() <= CONSTANTS, "selector of {} longer than the row's constants", n);
    }
    let (name, p, own, _) = gs[s.upto(gs.len())];
    s.class(name);
    let mut k = row::<C::ScalarField>(s, CONSTANTS);
    for (x, b) in k.iter_mut().zip(selector(p)) {
        *x = b;
    }
    let (l, r, b) = (row(s, WIRES), row(s, WIRES), row(s, WIRES));
    s.note(|| format!("{} constants {} local {} right {} below {}", name, shows(&k), shows(&l), shows(&r), shows(&b)));
    s.nontrivial();
    let want = own(&k, &l, &r, &b);
    let got = evaluate_all_constraints::<C, I>(&k, &l, &r, &b);
    ensure!(got.len() >= want.len(), "combined constraints are fewer than those of {}", name);
    for (i, &g) in got.iter().enumerate() {
        let w = want.get(i).copied().unwrap_or(C::ScalarField::ZERO);
        ensure!(g == w, "row selecting {}: combined constraint {} is {}, the gate's own is {}", name, i, show(g), show(w));
    }
    Ok(())
}
/// For constants that are no selector at all the combination is the selector-weighted sum.
fn weighted<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    type Row<C> = Vec<<C as Curve>::ScalarField>;
    let gs = gates::<C, I>();
    let k: Row<C> = row(s, CONSTANTS);
    let (l, r, b): (Row<C>, Row<C>, Row<C>) = (row(s, WIRES), row(s, WIRES), row(s, WIRES));
    s.note(|| format!("constants {} local {} right {} below {}", shows(&k), shows(&l), shows(&r), shows(&b)));
    s.nontrivial();
    let mut want: Row<C> = vec![];
    for (name, p, own, filtered) in gs {
        let w = p.iter().zip(&k).fold(C::ScalarField::ONE, |a, (&bit, &c)| a * if bit { c } else { C::ScalarField::ONE - c });
        let f = filtered(&k, &l, &r, &b);
        let o = own(&k, &l, &r, &b);
        ensure!(f.len() == o.len(), "{}: {} filtered constraints of {}", name, f.len(), o.len());
        for (i, (&x, &y)) in f.iter().zip(&o).enumerate() {
            ensure!(x == w * y, "{}: filtered constraint {} is {}, expected selector weight times constraint, {}", name, i, show(x), show(w * y));
            if want.len() <= i {
                want.push(C::ScalarField::ZERO);
            }
            want[i] = want[i] + w * y;
        }
    }
    let got = evaluate_all_constraints::<C, I>(&k, &l, &r, &b);
    ensure!(got == want, "combined constraints {} are not the selector-weighted sums {}", shows(&got), shows(&want));
    Ok(())
}
/// The combined constraints restricted to a random line have degree at most 8 (the quotient's size
/// relies on it), exactly: the ninth finite differences vanish.
fn degree<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    const D: usize = 8;
    let mut line = || -> (Vec<C::ScalarField>, Vec<C::ScalarField>) { (many(s, CONSTANTS + 3 * WIRES), many(s, CONSTANTS + 3 * WIRES)) };
    let (a, b) = line();
    s.note(|| format!("from {} direction {}", shows(&a), shows(&b)));
    s.nontrivial();
    let mut rows: Vec<Vec<Vec<C::ScalarField>>> = vec![];
    for t in 0..D + 3 {
        let t = C::ScalarField::from_canonical_usize(t);
        let v: Vec<_> = a.iter().zip(&b).map(|(&x, &y)| x + y * t).collect();
        let (k, w) = v.split_at(CONSTANTS);
        let (l, r, q) = (&w[..WIRES], &w[WIRES..2 * WIRES], &w[2 * WIRES..]);
        let mut at = vec![evaluate_all_constraints::<C, I>(k, l, r, q)];
        at.extend(gates::<C, I>().iter().map(|g| (g.3)(k, l, r, q)));
        rows.push(at);
    }
    for g in 0..rows[0].len() {
        for c in 0..rows[0][g].len() {
            let mut v: Vec<C::ScalarField> = rows.iter().map(|r| r[g][c]).collect();
            for _ in 0..=D {
                v = v.windows(2).map(|w| w[1] - w[0]).collect();
            }
            ensure!(v.iter().all(|&x| x == C::ScalarField::ZERO), "constraint {} of {} has degree above {}", c, if g == 0 { "the combination" } else { gates::<C, I>()[g - 1].0 }, D);
        }
    }
    Ok(())
}
/// Rows of a built circuit.
fn built<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let gs = gates::<C, I>();
    let find = |n: &str| gs.iter().find(|g| g.0 == n).unwrap().1;
    let mut b = CircuitBuilder::<C>::new(128);
    let n = s.size(0, 40);
    let pis = s.size(0, 24);
    b.add_public_inputs(pis);
    let mut want: Vec<(&str, Vec<C::ScalarField>)> = vec![];
    for _ in 0..n {
        let i = b.num_gates();
        ensure!(i == want.len(), "builder counts {} gates after {} were added", i, want.len());
        // PublicInput rows are the builder's own
        let which = s.upto(9);
        let p: &[bool] = match which {
            0 => ArithmeticGate::<C>::PREFIX,
            1 => BufferGate::<C>::PREFIX,
            2 => ConstantGate::<C>::PREFIX,
            3 => RescueStepAGate::<C>::PREFIX,
            4 => RescueStepBGate::<C>::PREFIX,
            5 => CurveAddGate::<C, I>::PREFIX,
            6 => CurveDblGate::<C, I>::PREFIX,
            7 => CurveEndoGate::<C, I>::PREFIX,
            _ => Base4SumGate::<C>::PREFIX,
        };
        let k: Vec<C::ScalarField> = row(s, CONSTANTS - p.len());
        let k = if s.chance(1, 4) { k[..s.upto(k.len() + 1)].to_vec() } else { k };
        let mut all = selector::<C::ScalarField>(p);
        all.extend_from_slice(&k);
        all.resize(CONSTANTS, C::ScalarField::ZERO);
        let name = match which {
            0 => {
                b.add_gate(ArithmeticGate::new(i), k);
                "ArithmeticGate"
            }
            1 => {
                b.add_gate(BufferGate::new(i), k);
                "BufferGate"
            }
            2 => {
                b.add_gate(ConstantGate::new(i), k);
                "ConstantGate"
            }
            3 => {
                b.add_gate(RescueStepAGate::new(i), k);
                "RescueStepAGate"
            }
            4 => {
                b.add_gate(RescueStepBGate::new(i), k);
                "RescueStepBGate"
            }
            5 => {
                b.add_gate(CurveAddGate::<C, I>::new(i), k);
                "CurveAddGate"
            }
            6 => {
                b.add_gate(CurveDblGate::<C, I>::new(i), k);
                "CurveDblGate"
            }
            7 => {
                b.add_gate(CurveEndoGate::<C, I>::new(i), k);
                "CurveEndoGate"
            }
            _ => {
                b.add_gate(Base4SumGate::new(i), k);
                "Base4SumGate"
            }
        };
        want.push((name, all));
    }
    s.note(|| format!("{} public inputs, gates {:?}", pis, want.iter().map(|w| w.0).collect::<Vec<_>>()));
    s.nontrivial();
    s.class(if n == 0 { "empty" } else if n > 27 { "above 32 rows" } else { "small" });
    let c = b.build();
    let degree = c.gate_constants.len();
    ensure!(degree.is_power_of_two() && degree >= want.len() + 2 * ((pis + 8) / 9), "degree {} for {} gates and {} public inputs", degree, want.len(), pis);
    let sel = |k: &[C::ScalarField]| -> Vec<&'static str> { gs.iter().filter(|g| selector::<C::ScalarField>(g.1) == k[..g.1.len()]).map(|g| g.0).collect() };
    let mut inputs = vec![];
    for (i, k) in c.gate_constants.iter().enumerate() {
        ensure!(k.len() == CONSTANTS, "row {} has {} constants", i, k.len());
        let by = sel(k);
        ensure!(by.len() == 1, "row {} of the built circuit selects the gates {:?}: {}", i, by, shows(k));
        if let Some((name, all)) = want.get(i) {
            ensure!(by[0] == *name && k == all, "row {} was built as {} with {}, the circuit has {} with {}", i, name, shows(all), by[0], shows(k));
        } else if by[0] == "PublicInputGate" {
            inputs.push(i);
        } else {
            ensure!(by[0] == "BufferGate", "row {} added by the builder is a {}", i, by[0]);
        }
    }
    let first = c.num_gates_without_pis;
    let expected: Vec<usize> = (0..(pis + 8) / 9).map(|j| first + 2 * j).collect();
    ensure!(inputs == expected && first >= want.len(), "public input rows {:?}, expected {:?}", inputs, expected);
    ensure!(c.num_public_inputs == pis, "{} public inputs recorded of {}", c.num_public_inputs, pis);
    let _ = find;
    // the constants polynomials carry the same rows
    for j in 0..CONSTANTS {
        let poly = &c.constant_polynomials[j];
        ensure!(c.constants_8n[j].len() == 8 * degree, "{} values of constant {} on the large domain", c.constants_8n[j].len(), j);
        for i in 0..degree {
            let k = c.gate_constants[i][j];
            let x = c.subgroup_n[i];
            ensure!(poly.eval(x) == k, "constant polynomial {} at row {} is {}, expected {}", j, i, show(poly.eval(x)), show(k));
            ensure!(c.constants_8n[j][8 * i] == k, "large-domain constant {} at row {} differs", j, i);
        }
        let q = s.upto(8 * degree);
        ensure!(c.constants_8n[j][q] == poly.eval(c.subgroup_8n[q]), "large-domain value {} of constant {} is not the polynomial's", q, j);
    }
    Ok(())
}
fn selected_l(s: &mut Src) -> Res {
    each_pair!(s, selected)
}
fn weighted_l(s: &mut Src) -> Res {
    each_pair!(s, weighted)
}
fn degree_l(s: &mut Src) -> Res {
    each_pair!(s, degree)
}
fn built_l(s: &mut Src) -> Res {
    each_pair!(s, built)
}

fn main() {
    Suite::new("G02", "Rows of every gate type with random, small and boundary constants and wires; random gate sequences with random configuration constants through the builder. Non-trivial: every generated case.")
        .law("a row selecting a gate enforces that gate", 20_000, 500_000, selected_l)
        .law("combined constraints are the selector-weighted sums", 10_000, 300_000, weighted_l)
        .law("constraints stay within the quotient's degree", 1_000, 40_000, degree_l)
        .law("rows of built circuits select one gate and keep its constants", 150, 4_000, built_l)
        .run();
}
