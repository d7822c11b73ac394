//! K03: in-circuit curve operations.
use num::BigUint;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Straight-line programs over points.
#[derive(Clone, Debug)]
enum Op {
    Input(usize),
    Constant(usize),
    Add(usize, usize),
    Sub(usize, usize),
    Double(usize),
    Neg(usize),
    Valid(usize),
    /// A point copied to a new target.
    Copy(usize),
}
fn step<I: Curve>(op: &Op, v: &[Pt<I>], inputs: &[Pt<I>], consts: &[Pt<I>]) -> Option<Pt<I>> {
    let x = |p: Pt<I>| p.unwrap().0;
    let r = match *op {
        Op::Input(i) => inputs[i],
        Op::Constant(i) => consts[i],
        Op::Add(a, b) | Op::Sub(a, b) if x(v[a]) == x(v[b]) => return None,
        Op::Add(a, b) => ref_add::<I>(v[a], v[b]),
        Op::Sub(a, b) => ref_add::<I>(v[a], ref_neg::<I>(v[b])),
        Op::Double(a) => ref_add::<I>(v[a], v[a]),
        Op::Neg(a) => ref_neg::<I>(v[a]),
        Op::Valid(a) | Op::Copy(a) => v[a],
    };
    Some(r)
}
/// The values of all steps; `None` in an exceptional case.
fn run_points<I: Curve>(ops: &[Op], inputs: &[Pt<I>], consts: &[Pt<I>]) -> Option<Vec<Pt<I>>> {
    let mut v = vec![];
    for o in ops {
        let q = step::<I>(o, &v, inputs, consts)?;
        v.push(q);
    }
    Some(v)
}
fn emit_points<C: HaloCurve, I: Curve<BaseField = C::ScalarField>>(b: &mut CircuitBuilder<C>, ops: &[Op], consts: &[Pt<I>]) -> Vec<AffinePointTarget<I>> {
    let mut t: Vec<AffinePointTarget<I>> = vec![];
    let many = ops.len() % 2 == 0;
    let mut inputs = if many { b.add_virtual_point_targets::<I>(ops.iter().filter(|o| matches!(o, Op::Input(_))).count()) } else { vec![] }.into_iter();
    for o in ops {
        let q = match *o {
            Op::Input(_) if many => inputs.next().unwrap(),
            Op::Input(_) => b.add_virtual_point_target::<I>(),
            Op::Constant(i) => b.constant_affine_point::<I>(affine::<I>(consts[i])),
            Op::Add(x, y) => b.curve_add::<I>(t[x], t[y]),
            Op::Sub(x, y) => b.curve_sub::<I>(t[x], t[y]),
            Op::Double(x) => b.curve_double::<I>(t[x]),
            Op::Neg(x) => b.curve_neg::<I>(t[x]),
            Op::Valid(x) => {
                b.curve_assert_valid::<I>(t[x]);
                t[x]
            }
            Op::Copy(x) => {
                let q = b.add_virtual_point_target::<I>();
                if x % 2 == 0 {
                    b.copy_curve::<I>(t[x], q);
                } else {
                    b.copy_curve::<I>(q, t[x]);
                }
                q
            }
        };
        t.push(q);
    }
    t
}
/// A point with coordinates.
fn finite<I: CurveRef>(s: &mut Src) -> Pt<I>
where
    I::ScalarField: FieldRef,
{
    point::<I>(s).or_else(|| I::pool()[0].1)
}
fn points<I: CurveRef>(s: &mut Src, n: usize) -> Vec<Pt<I>>
where
    I::BaseField: FieldRef,
    I::ScalarField: FieldRef,
{
    let mut v: Vec<Pt<I>> = vec![];
    for _ in 0..n {
        let q = match v.last() {
            // same or opposite ordinate, another abscissa
            Some(&q) if s.chance(1, 6) => {
                let q = same_y::<I>(q);
                if s.bool() {
                    q
                } else {
                    ref_neg::<I>(q)
                }
            }
            _ => finite::<I>(s),
        };
        v.push(q);
    }
    v
}
fn program_of_points<I: CurveRef>(s: &mut Src, steps: usize) -> (Vec<Op>, Vec<Pt<I>>, Vec<Pt<I>>)
where
    I::BaseField: FieldRef,
    I::ScalarField: FieldRef,
{
    let (ni, nc) = (s.size(1, 4), s.size(0, 2));
    let inputs = points::<I>(s, ni);
    let consts = points::<I>(s, nc);
    let mut ops: Vec<Op> = (0..inputs.len()).map(Op::Input).chain((0..consts.len()).map(Op::Constant)).collect();
    let mut v = run_points::<I>(&ops, &inputs, &consts).unwrap();
    for _ in 0..steps {
        let n = ops.len();
        let (x, y) = (s.upto(n), s.upto(n));
        let op = match s.weighted(&[4, 3, 3, 2, 1, 1]) {
            0 => Op::Add(x, y),
            1 => Op::Sub(x, y),
            2 => Op::Double(x),
            3 => Op::Neg(x),
            5 => Op::Copy(x),
            _ => Op::Valid(x),
        };
        let op = if step::<I>(&op, &v, &inputs, &consts).is_some() { op } else { Op::Double(x) };
        v.push(step::<I>(&op, &v, &inputs, &consts).unwrap());
        ops.push(op);
    }
    (ops, inputs, consts)
}
fn set<C: HaloCurve, I: Curve<BaseField = C::ScalarField>>(w: &mut PartialWitness<C::ScalarField>, t: AffinePointTarget<I>, q: Pt<I>) {
    w.set_point_target::<I>(t, affine::<I>(q))
}
fn showp<I: Curve>(q: &Pt<I>) -> String {
    match q {
        None => "identity".into(),
        Some((x, y)) => format!("({}, {})", show(*x), show(*y)),
    }
}

fn group_of<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let steps = s.size(1, 16);
    let (ops, inputs, consts) = program_of_points::<I>(s, steps);
    s.note(|| format!("{:?} on {:?}", ops, inputs.iter().map(showp::<I>).collect::<Vec<_>>()));
    if ops.iter().filter(|o| matches!(o, Op::Add(..) | Op::Sub(..) | Op::Double(_))).count() >= 2 {
        s.nontrivial();
    }
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit_points::<C, I>(&mut b, &ops, &consts);
    let c = b.build();
    let flat: Vec<_> = t.iter().flat_map(|q| vec![q.x, q.y]).collect();
    let sys = System::of::<I>(&c, &flat);
    for round in 0..3 {
        let inputs = if round == 0 { inputs.clone() } else { points::<I>(s, inputs.len()) };
        let want = run_points::<I>(&ops, &inputs, &consts);
        let mut w = PartialWitness::new();
        let mut given = (vec![], vec![]);
        for (o, q) in ops.iter().zip(&t) {
            if let Op::Input(i) = o {
                given.0.push(*q);
                given.1.push(affine::<I>(inputs[*i]));
            }
        }
        w.set_point_targets::<I>(&given.0, &given.1);
        let want = match want {
            Some(v) => v,
            None => {
                // the sum of points with equal abscissas has no witness
                s.class("exceptional");
                if let Ok(w) = catching(|| c.generate_partial_witness(w)) {
                    ensure!(violation::<C, I>(&c, &complete(&c, &w)).is_some(), "an exceptional addition has a witness");
                }
                continue;
            }
        };
        let w = c.generate_partial_witness(w);
        for (i, q) in t.iter().enumerate() {
            let got = pt::<I>(&w.get_point_target(*q));
            ensure!(got == want[i], "step {} ({:?}) is {}, not {}", i, ops[i], showp::<I>(&got), showp::<I>(&want[i]));
        }
        let full = complete(&c, &w);
        if let Some(m) = violation::<C, I>(&c, &full) {
            return Err(m);
        }
        // nothing but the inputs is left to choose
        let mut v = vec![None; sys.classes];
        for (o, q) in ops.iter().zip(&t) {
            if let Op::Input(i) = o {
                let (x, y) = inputs[*i].unwrap();
                for (k, z) in vec![(sys.class(q.x), x), (sys.class(q.y), y)] {
                    if let Some(k) = k {
                        v[k] = Some(z);
                    }
                }
            }
        }
        let guesses = sys.solve(s, &mut v, |s, _| elem(s));
        if guesses > 0 {
            s.class("hints chosen by the adversary");
        }
        if violation::<C, I>(&c, &sys.witness(&v)).is_none() {
            for (i, q) in t.iter().enumerate() {
                let (x, y) = want[i].unwrap();
                for (k, z) in vec![(sys.class(q.x), x), (sys.class(q.y), y)] {
                    if let Some(y) = k.and_then(|k| v[k]) {
                        ensure!(y == z, "a satisfying witness gives step {} ({:?}) the coordinate {} instead of {}", i, ops[i], show(y), show(z));
                    }
                }
            }
        }
    }
    Ok(())
}
fn group_l(s: &mut Src) -> Res {
    each_pair!(s, group_of)
}

/// The addition of points with equal abscissas cannot be satisfied at all.
fn exceptional_of<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let (c, x, y, z) = memo(format!("add {}", C::CNAME), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let x = b.add_virtual_point_target::<I>();
        let y = b.add_virtual_point_target::<I>();
        let z = b.curve_add::<I>(x, y);
        (b.build(), x, y, z)
    });
    let sys = memo(format!("add system {}", C::CNAME), || System::of::<I>(c, &[x.x, x.y, y.x, y.y, z.x, z.y]));
    let p = finite::<I>(s);
    let q = if s.bool() { p } else { ref_neg::<I>(p) };
    s.note(|| format!("{} and {}", showp::<I>(&p), showp::<I>(&q)));
    s.nontrivial();
    for _ in 0..4 {
        let mut v = vec![None; sys.classes];
        for (t, k) in vec![(x.x, p.unwrap().0), (x.y, p.unwrap().1), (y.x, q.unwrap().0), (y.y, q.unwrap().1)] {
            v[sys.class(t).unwrap()] = Some(k);
        }
        if s.bool() {
            let r = finite::<I>(s).unwrap();
            v[sys.class(z.x).unwrap()] = Some(r.0);
            v[sys.class(z.y).unwrap()] = Some(r.1);
        }
        sys.solve(s, &mut v, |s, _| if s.bool() { elem(s) } else { C::ScalarField::from_canonical_u64(s.below(2)) });
        ensure!(violation::<C, I>(c, &sys.witness(&v)).is_some(), "the sum of {} and {} has a witness", showp::<I>(&p), showp::<I>(&q));
    }
    Ok(())
}
fn exceptional_l(s: &mut Src) -> Res {
    each_pair!(s, exceptional_of)
}

/// The validity assertion holds exactly on the curve.
fn valid_of<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let (c, t) = memo(format!("valid {}", C::CNAME), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let t = b.add_virtual_point_target::<I>();
        b.curve_assert_valid::<I>(t);
        (b.build(), t)
    });
    let sys = memo(format!("valid system {}", C::CNAME), || System::of::<I>(c, &[t.x, t.y]));
    let q = finite::<I>(s).unwrap();
    let (x, y): (C::ScalarField, C::ScalarField) = match s.upto(6) {
        0 => q,
        1 => (q.0, C::ScalarField::ZERO - q.1),
        2 => (q.0, q.1 + elem(s)),
        3 => (q.0 + elem(s), q.1),
        4 => (q.1, q.0),
        _ => (elem(s), elem(s)),
    };
    let on = ref_on_curve::<I>(&Some((x, y)));
    s.note(|| format!("({}, {})", show(x), show(y)));
    s.class(if on { "on the curve" } else { "off the curve" });
    s.nontrivial();
    let mut w = PartialWitness::new();
    set::<C, I>(&mut w, *t, Some((x, y)));
    match catching(|| c.generate_partial_witness(w)) {
        Err(m) => ensure!(!on, "panics on a point of the curve: {}", m),
        Ok(w) => {
            let m = violation::<C, I>(c, &complete(c, &w));
            ensure!(m.is_none() == on, "({}, {}) is {}the curve, but its assertion is {}", show(x), show(y), if on { "on " } else { "off " }, m.unwrap_or_else(|| "satisfied".into()));
        }
    }
    let mut v = vec![None; sys.classes];
    v[sys.class(t.x).unwrap()] = Some(x);
    v[sys.class(t.y).unwrap()] = Some(y);
    sys.solve(s, &mut v, |s, _| elem(s));
    ensure!(on || violation::<C, I>(c, &sys.witness(&v)).is_some(), "({}, {}) is off the curve, but some witness satisfies the assertion", show(x), show(y));
    Ok(())
}
fn valid_l(s: &mut Src) -> Res {
    each_pair!(s, valid_of)
}

/// Scalar and multi-scalar multiplication.
fn msm_of<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let n = s.weighted(&[6, 3, 1]) + 1;
    let (c, t, out) = memo(format!("msm {} {}", C::CNAME, n), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let t: Vec<(Target<C::ScalarField>, AffinePointTarget<I>)> = (0..n).map(|_| (b.add_virtual_target(), b.add_virtual_point_target::<I>())).collect();
        let out = if n == 1 {
            b.curve_mul::<I>(CurveMulOp { scalar: t[0].0, point: t[0].1 })
        } else {
            let parts: Vec<CurveMulOp<C, I>> = t.iter().map(|&(scalar, point)| CurveMulOp { scalar, point }).collect();
            b.curve_msm::<I>(&parts)
        };
        (b.build(), t, out)
    });
    let max = BigUint::from(1u32) << (<C::ScalarField as Field>::BITS - 1);
    let mut terms: Vec<(C::ScalarField, Pt<I>)> = vec![];
    for _ in 0..n {
        let k: C::ScalarField = match s.upto(4) {
            0 => elem(s),
            1 => C::ScalarField::from_canonical_u64(s.below(4)),
            2 => fe(&((&max - 1u32) >> s.upto(254))),
            _ => fe(&(BigUint::from(1u32) << s.upto(254))),
        };
        let k = if big(k) < max { k } else { fe(&(big(k) % &max)) };
        // points may repeat, with either sign
        let q = if !terms.is_empty() && s.chance(1, 4) {
            let q = terms[s.upto(terms.len())].1;
            if s.bool() {
                q
            } else {
                ref_neg::<I>(q)
            }
        } else {
            finite::<I>(s)
        };
        terms.push((k, q));
    }
    s.note(|| format!("{:?}", terms.iter().map(|(k, q)| format!("{} times {}", show(*k), showp::<I>(q))).collect::<Vec<_>>()));
    let want = terms.iter().fold(None, |a, (k, q)| ref_add::<I>(a, ref_mul::<I>(*q, &big(*k))));
    s.class(if n == 1 { "one term" } else { "several terms" });
    if terms.iter().all(|(k, _)| ordinary(*k)) {
        s.nontrivial();
    }
    let mut w = PartialWitness::new();
    for ((ts, tp), (k, q)) in t.iter().zip(&terms) {
        w.set_target(*ts, *k);
        set::<C, I>(&mut w, *tp, *q);
    }
    let r = catching(|| c.generate_partial_witness(w));
    let want = match want {
        Some(_) => want,
        // the identity has no coordinates
        None => {
            s.class("sum is the identity");
            if let Ok(w) = r {
                ensure!(violation::<C, I>(c, &complete(c, &w)).is_some(), "the identity has a witness");
            }
            return Ok(());
        }
    };
    let w = r?;
    let got = pt::<I>(&w.get_point_target(*out));
    ensure!(got == want, "the result is {}, not {}", showp::<I>(&got), showp::<I>(&want));
    match violation::<C, I>(c, &complete(c, &w)) {
        Some(m) => Err(m),
        None => Ok(()),
    }
}
fn msm_l(s: &mut Src) -> Res {
    each_pair!(s, msm_of)
}

/// Other bits than the scalar's do not satisfy the circuit.
fn bits_of<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let n = 1;
    let (c, scalar, point_t, out) = memo(format!("mul {} {}", C::CNAME, n), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let k = b.add_virtual_target();
        let q = b.add_virtual_point_target::<I>();
        let out = b.curve_mul::<I>(CurveMulOp { scalar: k, point: q });
        (b.build(), k, q, out)
    });
    let sys = memo(format!("mul system {}", C::CNAME), || System::of::<I>(c, &[*scalar, point_t.x, point_t.y, out.x, out.y]));
    let q = finite::<I>(s);
    let k = BigUint::from(s.below(1 << 40) + 1);
    let want = ref_mul::<I>(q, &k);
    let k: C::ScalarField = fe(&k);
    s.note(|| format!("{} times {}", show(k), showp::<I>(&q)));
    s.nontrivial();
    // start from the honest witness, forget some rows, and let the adversary refill them
    let mut w = PartialWitness::new();
    w.set_target(*scalar, k);
    set::<C, I>(&mut w, *point_t, q);
    let w = c.generate_partial_witness(w);
    let full = complete(c, &w);
    let keep: Vec<usize> = vec![*scalar, point_t.x, point_t.y].iter().map(|&t| sys.class(t).unwrap()).collect();
    let (lo, hi) = (s.upto(sys.n), s.upto(sys.n));
    let mut v: Vec<Option<C::ScalarField>> = vec![None; sys.classes];
    for i in 0..sys.n * WIRES {
        let row = i / WIRES;
        if row < lo.min(hi) || keep.contains(&sys.class_of[i]) {
            v[sys.class_of[i]] = Some(full.get_indices(row, i % WIRES));
        }
    }
    sys.solve(s, &mut v, |s, _| C::ScalarField::from_canonical_u64(s.below(2)));
    if violation::<C, I>(c, &sys.witness(&v)).is_none() {
        s.class("satisfied");
        let got = (v[sys.class(out.x).unwrap()].unwrap(), v[sys.class(out.y).unwrap()].unwrap());
        ensure!(Some(got) == want, "a satisfying witness has the result {}, not {}", showp::<I>(&Some(got)), showp::<I>(&want));
    }
    Ok(())
}
fn bits_l(s: &mut Src) -> Res {
    each_pair!(s, bits_of)
}

fn main() {
    Suite::new("K03", "Random programs of up to 16 additions, subtractions, doublings, negations and validity assertions over input and constant points, run on three assignments each; scalar and multi-scalar products of one to three terms with small, boundary, sparse and random scalars below 2^254 and repeated or opposite points; on-curve and off-curve coordinate pairs. An adversary completes witnesses from chosen hints. Non-trivial: two or more group operations; scalars that are neither tiny nor a power of two; every case of the other laws.")
        .law("points computed are the group's", 500, 20_000, group_l)
        .law("additions of points with equal abscissas have no witness", 100, 2_000, exceptional_l)
        .law("validity is asserted exactly on the curve", 300, 10_000, valid_l)
        .law("scalar products are the group's", 200, 8_000, msm_l)
        .law("no other choice of bits satisfies a scalar product", 80, 3_000, bits_l)
        .run();
}
