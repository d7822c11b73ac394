//! K04: big-integer, ordering and foreign-field gadgets.
use num::{BigUint, Integer, One, Zero};
use plonky::*;
use std::cmp::Ordering;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Width of a limb, which is part of the representation: limbs are below 2^86.
const LIMB: usize = 86;
fn limb_count(max: &BigUint) -> usize {
    (max.bits() as usize + LIMB - 1) / LIMB
}
/// Integers of up to `bits` bits, near limb boundaries and sparse ones being frequent.
fn integer(s: &mut Src, bits: usize) -> BigUint {
    let top = BigUint::one() << bits;
    match s.upto(5) {
        0 => BigUint::from(s.below(4)) % &top,
        1 => {
            let k = s.upto(bits / LIMB + 1) * LIMB;
            let x = (BigUint::one() << k) + BigUint::from(s.below(3));
            (if x.is_zero() { x } else { x - 1u32 }) % &top
        }
        2 => (&top - 1u32) - BigUint::from(s.below(2)).min(&top - 1u32),
        3 => (BigUint::one() << s.upto(bits.max(1))) % &top,
        _ => {
            let v: Vec<u64> = (0..bits / 64 + 1).map(|_| s.u64()).collect();
            limbs_to_big(&v) % &top
        }
    }
}
fn upto(s: &mut Src, max: &BigUint) -> BigUint {
    match s.upto(4) {
        0 => max.clone(),
        1 => BigUint::zero(),
        2 if !max.is_zero() => max - 1u32,
        _ => integer(s, max.bits() as usize).min(max.clone()),
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// index, bound, range checked
    Input(usize, BigUint, bool),
    Constant(BigUint),
    Add(usize, usize),
    AddMany(Vec<usize>),
    Mul(usize, usize),
    Div(usize, usize),
    Rem(usize, usize),
    Cmp(usize, usize),
    Equal(usize, usize),
}
/// The values of all steps; `None` when dividing by zero.
fn eval(ops: &[Op], inputs: &[BigUint]) -> Option<Vec<BigUint>> {
    let mut v: Vec<BigUint> = vec![];
    for o in ops {
        if matches!(o, Op::Div(_, y) | Op::Rem(_, y) if v[*y].is_zero()) {
            return None;
        }
        let x = match o {
            Op::Input(i, ..) => inputs[*i].clone(),
            Op::Constant(c) => c.clone(),
            Op::Add(x, y) => &v[*x] + &v[*y],
            Op::AddMany(l) => l.iter().map(|&i| v[i].clone()).sum(),
            Op::Mul(x, y) => &v[*x] * &v[*y],
            Op::Div(x, y) => &v[*x] / &v[*y],
            Op::Rem(x, y) => &v[*x] % &v[*y],
            Op::Cmp(x, _) | Op::Equal(x, _) => v[*x].clone(),
        };
        v.push(x);
    }
    Some(v)
}
struct Built<C: HaloCurve> {
    ints: Vec<BigIntTarget<C::ScalarField>>,
    orders: Vec<Option<OrderingTarget<C::ScalarField>>>,
}
fn emit<C: HaloCurve>(b: &mut CircuitBuilder<C>, ops: &[Op]) -> Built<C> {
    let mut t: Vec<BigIntTarget<C::ScalarField>> = vec![];
    let mut orders = vec![];
    for o in ops {
        let mut order = None;
        let x = match o {
            Op::Input(_, max, validate) => b.add_virtual_bigint_target(max, *validate),
            Op::Constant(c) => b.constant_bigint(c),
            Op::Add(x, y) => b.bigint_add(&t[*x], &t[*y]),
            Op::AddMany(l) => {
                let l: Vec<_> = l.iter().map(|&i| t[i].clone()).collect();
                b.bigint_add_many(&l)
            }
            Op::Mul(x, y) => b.bigint_mul(&t[*x], &t[*y]),
            Op::Div(x, y) => b.bigint_div(&t[*x], &t[*y]),
            Op::Rem(x, y) => b.bigint_rem(&t[*x], &t[*y]),
            Op::Cmp(x, y) => {
                order = Some(b.bigint_cmp(&t[*x], &t[*y]));
                t[*x].clone()
            }
            Op::Equal(x, y) => {
                b.copy_bigint(&t[*x], &t[*y]);
                t[*x].clone()
            }
        };
        t.push(x);
        orders.push(order);
    }
    Built { ints: t, orders }
}

fn program_of_integers(s: &mut Src, steps: usize) -> (Vec<Op>, Vec<BigUint>) {
    let mut ops = vec![];
    let mut inputs = vec![];
    // bound of every step
    let mut max: Vec<BigUint> = vec![];
    for i in 0..s.size(1, 4) {
        let bits = s.size(1, 3 * LIMB + 2);
        let m = integer(s, bits).max(BigUint::one());
        inputs.push(upto(s, &m));
        ops.push(Op::Input(i, m.clone(), s.bool()));
        max.push(m);
    }
    for _ in 0..s.size(0, 2) {
        let bits = s.size(1, 3 * LIMB);
        let c = integer(s, bits);
        max.push(c.clone());
        ops.push(Op::Constant(c));
    }
    for _ in 0..steps {
        let v = eval(&ops, &inputs).unwrap();
        let n = ops.len();
        let (x, y) = (s.upto(n), s.upto(n));
        let op = match s.weighted(&[3, 2, 3, 2, 2, 3, 1]) {
            0 => Op::Add(x, y),
            1 => Op::AddMany((0..s.size(1, 6)).map(|_| s.upto(n)).collect()),
            2 if max[x].bits() + max[y].bits() < 6 * LIMB as u64 => Op::Mul(x, y),
            3 if !v[y].is_zero() => Op::Div(x, y),
            4 if !v[y].is_zero() => Op::Rem(x, y),
            6 if v[x] == v[y] => Op::Equal(x, y),
            _ => Op::Cmp(x, y),
        };
        max.push(match &op {
            Op::Add(x, y) => &max[*x] + &max[*y],
            Op::AddMany(l) => l.iter().map(|&i| max[i].clone()).sum(),
            Op::Mul(x, y) => &max[*x] * &max[*y],
            Op::Rem(_, y) => &max[*y] - 1u32,
            Op::Div(x, _) | Op::Cmp(x, _) | Op::Equal(x, _) => max[*x].clone(),
            _ => unreachable!(),
        });
        ops.push(op);
    }
    (ops, inputs)
}
/// Check a generated witness against the integer model.
fn judge<C: HaloCurve>(w: &PartialWitness<C::ScalarField>, ops: &[Op], built: &Built<C>, want: &[BigUint]) -> Res {
    for (i, o) in ops.iter().enumerate() {
        let t = &built.ints[i];
        for &l in &t.limbs {
            ensure!(w.contains_target(l), "step {} ({:?}): a limb gets no value", i, o);
            ensure!(big(w.get_target(l)).bits() as usize <= LIMB, "step {} ({:?}): limb {} is out of range", i, o, show(w.get_target(l)));
        }
        let got = w.get_bigint_target(t);
        ensure!(got == want[i], "step {} ({:?}) is {}, not {}", i, o, got, want[i]);
        ensure!(got <= t.max, "step {} ({:?}) is {}, above the declared maximum {}", i, o, got, t.max);
        if let (Some(order), Op::Cmp(x, y)) = (built.orders[i], o) {
            let want = want[*x].cmp(&want[*y]);
            let got = catching(|| w.get_ordering_target(order))?;
            ensure!(got == want, "step {} ({:?}) compares as {:?}, not {:?}", i, o, got, want);
        }
    }
    Ok(())
}

fn integers_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let steps = s.size(1, 5);
    let (ops, inputs) = program_of_integers(s, steps);
    s.note(|| format!("{:?} on {:?}", ops, inputs));
    let mut b = CircuitBuilder::<C>::new(128);
    let built = emit(&mut b, &ops);
    if built.ints.iter().any(|t| t.num_limbs() >= 3) {
        s.nontrivial();
    }
    let c = b.build();
    for round in 0..3 {
        let inputs: Vec<BigUint> = if round == 0 {
            inputs.clone()
        } else {
            ops.iter()
                .filter_map(|o| match o {
                    Op::Input(_, max, _) => Some(upto(s, max)),
                    _ => None,
                })
                .collect()
        };
        let want = match eval(&ops, &inputs) {
            Some(v) => v,
            None => continue,
        };
        if ops.iter().any(|o| matches!(o, Op::Equal(x, y) if want[*x] != want[*y])) {
            continue;
        }
        let mut w = PartialWitness::new();
        for (o, t) in ops.iter().zip(&built.ints) {
            if let Op::Input(i, ..) = o {
                w.set_bigint_target(t, &inputs[*i]);
            }
        }
        let w = c.generate_partial_witness(w);
        judge::<C>(&w, &ops, &built, &want).map_err(|m| format!("on {:?}: {}", inputs, m))?;
        if let Some(m) = violation::<C, I>(&c, &complete(&c, &w)) {
            return Err(format!("on {:?}: {}", inputs, m));
        }
    }
    Ok(())
}
fn integers_l(s: &mut Src) -> Res {
    each_pair!(s, integers_of)
}

/// Equality of integers holds exactly for equal integers, however they are represented.
fn equal_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let bits: Vec<usize> = (0..2).map(|_| s.size(1, 3 * LIMB)).collect();
    let max: Vec<BigUint> = bits.iter().map(|b| (BigUint::one() << *b) - 1u32).collect();
    let mut b = CircuitBuilder::<C>::new(128);
    let x = b.add_virtual_bigint_target(&max[0], true);
    let y = b.add_virtual_bigint_target(&max[1], true);
    b.copy_bigint(&x, &y);
    let c = b.build();
    s.nontrivial();
    for _ in 0..4 {
        let u = upto(s, &max[0]);
        let v = if s.bool() { u.clone().min(max[1].clone()) } else { upto(s, &max[1]) };
        s.class(if u == v { "equal" } else { "different" });
        let mut w = PartialWitness::new();
        w.set_bigint_target(&x, &u);
        w.set_bigint_target(&y, &v);
        match catching(|| c.generate_partial_witness(w)) {
            Err(m) => ensure!(u != v, "{} = {} panics: {}", u, v, m),
            Ok(w) => {
                let m = violation::<C, I>(&c, &complete(&c, &w));
                ensure!(m.is_none() == (u == v), "{} = {} is {}", u, v, m.unwrap_or_else(|| "satisfied".into()));
            }
        }
    }
    Ok(())
}
fn equal_l(s: &mut Src) -> Res {
    each_pair!(s, equal_of)
}

/// Valid orderings are exactly the three unit vectors; constants are the expected ones.
fn ordering_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let (c, t, consts) = memo(format!("ordering {}", C::CNAME), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let t = b.add_virtual_ordering_target(true);
        let consts: Vec<(Ordering, OrderingTarget<C::ScalarField>)> = vec![Ordering::Less, Ordering::Equal, Ordering::Greater].into_iter().map(|o| (o, b.constant_ordering(o))).collect();
        (b.build(), t, consts)
    });
    let sys = memo(format!("ordering system {}", C::CNAME), || System::of::<I>(c, &[t.lt, t.eq, t.gt]));
    let v: Vec<C::ScalarField> = (0..3).map(|_| if s.chance(1, 6) { elem(s) } else { C::ScalarField::from_canonical_u64(s.below(2)) }).collect();
    s.note(|| shows(&v));
    s.nontrivial();
    let ones = v.iter().filter(|&&x| x == C::ScalarField::ONE).count();
    let zeros = v.iter().filter(|&&x| x == C::ScalarField::ZERO).count();
    let valid = ones == 1 && zeros == 2;
    s.class(if valid { "valid" } else { "invalid" });
    let mut a = vec![None; sys.classes];
    for (&t, &x) in [t.lt, t.eq, t.gt].iter().zip(&v) {
        a[sys.class(t).unwrap()] = Some(x);
    }
    sys.solve(s, &mut a, |s, _| elem(s));
    let m = violation::<C, I>(c, &sys.witness(&a));
    ensure!(m.is_none() == valid, "the ordering {} is {}", shows(&v), m.unwrap_or_else(|| "accepted".into()));
    if valid {
        let mut w = PartialWitness::new();
        w.set_targets(&[t.lt, t.eq, t.gt], &v);
        let w = c.generate_partial_witness(w);
        let want = if v[0] == C::ScalarField::ONE {
            Ordering::Less
        } else if v[1] == C::ScalarField::ONE {
            Ordering::Equal
        } else {
            Ordering::Greater
        };
        ensure!(w.get_ordering_target(*t) == want, "ordering {} reads {:?}", shows(&v), w.get_ordering_target(*t));
        let mut w2 = PartialWitness::new();
        w2.set_ordering_target(*t, want);
        ensure!(w2.get_targets(&[t.lt, t.eq, t.gt]) == v, "{:?} is written as {}", want, shows(&v));
        for (o, k) in consts {
            ensure!(w.get_ordering_target(*k) == *o, "constant {:?} reads {:?}", o, w.get_ordering_target(*k));
        }
    }
    Ok(())
}
fn ordering_l(s: &mut Src) -> Res {
    each_pair!(s, ordering_of)
}

fn foreign_in<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>, FF: FieldRef>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let mut b = CircuitBuilder::<C>::new(128);
    let mut v: Vec<FF> = vec![];
    let mut t: Vec<ForeignFieldTarget<C::ScalarField, FF>> = vec![];
    let mut w = PartialWitness::new();
    for _ in 0..s.size(1, 4) {
        let x: FF = elem(s);
        v.push(x);
        t.push(if s.bool() {
            b.constant_foreign_field(x)
        } else {
            // an input: any canonical value
            let mut y = ForeignFieldTarget::zero();
            y.value = b.add_virtual_bigint_target(&(p::<FF>() - 1u32), true);
            w.set_foreign_field_target(&y, x);
            y
        });
    }
    if s.chance(1, 8) {
        v.push(FF::ZERO);
        t.push(ForeignFieldTarget::zero());
    }
    let mut text = vec![];
    for _ in 0..s.size(1, 3) {
        let n = v.len();
        let (x, y) = (s.upto(n), s.upto(n));
        match s.upto(3) {
            0 => {
                text.push(format!("{} + {}", x, y));
                t.push(b.foreign_field_add(&t[x], &t[y]));
                v.push(v[x] + v[y]);
            }
            1 => {
                text.push(format!("{} * {}", x, y));
                t.push(b.foreign_field_mul(&t[x], &t[y]));
                v.push(v[x] * v[y]);
            }
            _ => {
                let l: Vec<usize> = (0..s.size(1, 5)).map(|_| s.upto(n)).collect();
                text.push(format!("sum {:?}", l));
                let terms: Vec<_> = l.iter().map(|&i| t[i].clone()).collect();
                t.push(b.foreign_field_add_many(&terms));
                v.push(l.iter().fold(FF::ZERO, |a, &i| a + v[i]));
            }
        }
    }
    s.note(|| format!("{} {:?}", shows(&v), text));
    if v.iter().any(|x| ordinary(*x)) {
        s.nontrivial();
    }
    let c = b.build();
    let w = c.generate_partial_witness(w);
    for (i, (x, t)) in v.iter().zip(&t).enumerate() {
        let n = w.get_bigint_target(&t.value);
        ensure!(n == big(*x), "value {} is {}, not {} (after {:?})", i, n, big(*x), text);
        ensure!(n <= t.value.max, "value {} exceeds its declared maximum", i);
        let f: FF = w.get_foreign_field_target(t);
        ensure!(f == *x, "value {} reads as {}, not {}", i, show(f), show(*x));
    }
    match violation::<C, I>(&c, &complete(&c, &w)) {
        Some(m) => Err(m),
        None => Ok(()),
    }
}
fn foreign_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    match s.upto(6) {
        0 => foreign_in::<C, I, TweedledeeBase>(s),
        1 => foreign_in::<C, I, TweedledumBase>(s),
        2 => foreign_in::<C, I, Bls12377Base>(s),
        3 => foreign_in::<C, I, Bls12377Scalar>(s),
        4 => foreign_in::<C, I, PallasBase>(s),
        _ => foreign_in::<C, I, VestaBase>(s),
    }
}
fn foreign_l(s: &mut Src) -> Res {
    each_pair!(s, foreign_of)
}

/// Guess base 4 digits like an honest prover would, whatever the value decomposed. With `alias`,
/// some values split into limbs are taken for the integer that is larger by the field's order.
fn digits<C: HaloCurve>(s: &mut Src, alias: bool, sys: &System<C>, v: &[Option<C::ScalarField>]) -> Option<(usize, C::ScalarField)>
where
    C::ScalarField: FieldRef,
{
    let sum_prefix: Vec<C::ScalarField> = Base4SumGate::<C>::PREFIX.iter().map(|&b| C::ScalarField::from_canonical_bool(b)).collect();
    let arith_prefix: Vec<C::ScalarField> = ArithmeticGate::<C>::PREFIX.iter().map(|&b| C::ScalarField::from_canonical_bool(b)).collect();
    let four = C::ScalarField::from_canonical_u64(4);
    let limb = C::ScalarField::TWO.exp_usize(LIMB);
    for r in (0..sys.n).rev() {
        let at = |j: usize| sys.class_of[r * WIRES + j];
        if sys.constants[r].starts_with(&sum_prefix) {
            if let Some(new) = v[at(Base4SumGate::<C>::WIRE_ACC_NEW)] {
                for i in 0..Base4SumGate::<C>::NUM_LIMBS {
                    let k = at(Base4SumGate::<C>::wire_limb(i));
                    if v[k].is_none() {
                        let d: BigUint = (big(new) >> (2 * (Base4SumGate::<C>::NUM_LIMBS - 1 - i))) % 4u32;
                        return Some((k, fe(&d)));
                    }
                }
            }
        } else if sys.constants[r].starts_with(&arith_prefix) {
            let (m0, m1, a, out) = (at(ArithmeticGate::<C>::WIRE_MULTIPLICAND_0), at(ArithmeticGate::<C>::WIRE_MULTIPLICAND_1), at(ArithmeticGate::<C>::WIRE_ADDEND), at(ArithmeticGate::<C>::WIRE_OUTPUT));
            if let (Some(y), None) = (v[out], v[a]) {
                // digits and limbs are joined by multiplying with their base
                for base in &[four, limb] {
                    if v[m0] == Some(*base) || v[m1] == Some(*base) {
                        let mut y = big(y);
                        if alias && *base == limb && s.chance(1, 3) {
                            y += p::<C::ScalarField>();
                        }
                        return Some((a, fe(&(y % big(*base)))));
                    }
                }
            }
        }
    }
    None
}

/// Classes of wires that no gate outputs and that are no base 4 digits.
fn free_hints<C: HaloCurve>(sys: &System<C>) -> Vec<usize> {
    let prefix = |p: &[bool]| -> Vec<C::ScalarField> { p.iter().map(|&b| C::ScalarField::from_canonical_bool(b)).collect() };
    let (sum, arith) = (prefix(Base4SumGate::<C>::PREFIX), prefix(ArithmeticGate::<C>::PREFIX));
    let mut out = vec![false; sys.classes];
    let mut size = vec![0; sys.classes];
    sys.class_of.iter().for_each(|&k| size[k] += 1);
    for r in 0..sys.n {
        let at = |j: usize| sys.class_of[r * WIRES + j];
        if sys.constants[r].starts_with(&sum) {
            out[at(Base4SumGate::<C>::WIRE_ACC_NEW)] = true;
            // digits of a sum that is used elsewhere; those of a mere range check are free
            let summed = size[at(Base4SumGate::<C>::WIRE_ACC_NEW)] > 1;
            for i in 0..Base4SumGate::<C>::NUM_LIMBS {
                let k = at(Base4SumGate::<C>::wire_limb(i));
                if summed || size[k] > 1 {
                    out[k] = true;
                }
            }
        } else if sys.constants[r].starts_with(&arith) {
            out[at(ArithmeticGate::<C>::WIRE_OUTPUT)] = true;
        }
    }
    (0..sys.classes).filter(|&k| !out[k] && !sys.eqs_of(k).is_empty()).collect()
}

/// Forged results have no witness.
fn forged_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let kind = s.upto(4);
    let wide = s.chance(1, 3);
    let bits: Vec<usize> = (0..2)
        .map(|i| match s.upto(3) {
            0 => s.size(1, 2 * LIMB),
            1 if wide && i == 0 => s.size(3, 6) * LIMB - s.upto(4),
            _ => s.size(1, 2) * LIMB - s.upto(3),
        })
        .collect();
    let max: Vec<BigUint> = bits.iter().map(|b| (BigUint::one() << *b) - 1u32).collect();
    let x = upto(s, &max[0]);
    let y = upto(s, &max[1]).max(BigUint::one());
    let mut b = CircuitBuilder::<C>::new(128);
    let xt = b.add_virtual_bigint_target(&max[0], true);
    let yt = b.add_virtual_bigint_target(&max[1], true);
    let mut outs: Vec<(BigIntTarget<C::ScalarField>, BigUint)> = vec![];
    let mut order = None;
    match kind {
        0 => {
            let (d, r) = b.bigint_div_rem(&xt, &yt);
            outs.push((d, &x / &y));
            outs.push((r, &x % &y));
        }
        1 => outs.push((b.bigint_add(&xt, &yt), &x + &y)),
        2 => outs.push((b.bigint_mul(&xt, &yt), &x * &y)),
        _ => order = Some(b.bigint_cmp(&xt, &yt)),
    }
    let c = b.build();
    let mut all: Vec<Target<C::ScalarField>> = xt.limbs.iter().chain(&yt.limbs).copied().collect();
    outs.iter().for_each(|(t, _)| all.extend(&t.limbs));
    if let Some(o) = order {
        all.extend(vec![o.lt, o.eq, o.gt]);
    }
    let sys = System::of::<I>(&c, &all);
    let limbs = |v: &BigUint, n: usize| -> Vec<C::ScalarField> { (0..n).map(|i| fe(&((v >> (i * LIMB)) % (BigUint::one() << LIMB)))).collect() };
    s.note(|| format!("{} of {} and {}", ["division", "addition", "multiplication", "comparison"][kind], x, y));
    let generated = {
        let mut w = PartialWitness::new();
        w.set_bigint_target(&xt, &x);
        w.set_bigint_target(&yt, &y);
        complete(&c, &c.generate_partial_witness(w))
    };
    for _ in 0..4 {
        let mut v = vec![None; sys.classes];
        for (t, n) in vec![(&xt, &x), (&yt, &y)] {
            for (&l, k) in t.limbs.iter().zip(limbs(n, t.num_limbs())) {
                v[sys.class(l).unwrap()] = Some(k);
            }
        }
        let honest = s.chance(1, 5);
        // an adversary that only lies about which integers field elements stand for
        let alias = s.chance(1, 3);
        if alias && order.is_none() && kind != 0 {
        } else if honest {
            for &t in &all {
                let k = sys.class(t).unwrap();
                v[k] = Some(sys.value(&generated, k));
            }
        } else {
            if let Some(o) = order {
                let wrong = s.upto(3);
                for (i, t) in [o.lt, o.eq, o.gt].iter().enumerate() {
                    v[sys.class(*t).unwrap()] = Some(if i == wrong { C::ScalarField::ONE } else { C::ScalarField::ZERO });
                }
            } else {
                let mut values: Vec<BigUint> = outs.iter().map(|(_, n)| n.clone()).collect();
                if alias {
                    // the division of an integer that differs by a shifted multiple of the order
                    let by = p::<C::ScalarField>() << (s.upto(5) * LIMB);
                    let other = if x >= by && s.chance(3, 4) { &x - by } else { &x + by };
                    values = vec![&other / &y, &other % &y];
                } else if kind == 0 && s.bool() && values[0] >= BigUint::one() {
                    // a smaller quotient, a larger remainder
                    let k = if s.bool() { BigUint::one() } else { values[0].clone() };
                    values[0] -= &k;
                    values[1] += &k * &y;
                } else {
                    let i = s.upto(values.len());
                    values[i] = match s.upto(3) {
                        0 => &values[i] + 1u32,
                        1 => &values[i] + (BigUint::one() << LIMB),
                        _ if values[i].is_zero() => BigUint::one(),
                        _ => &values[i] - 1u32,
                    };
                }
                for ((t, _), n) in outs.iter().zip(&values) {
                    let mut l = limbs(n, t.num_limbs());
                    // the same value with a limb out of range, or whatever exceeds the limbs in the last one
                    if let Some(last) = l.last_mut() {
                        *last = fe(&((n >> ((t.num_limbs() - 1) * LIMB)) % p::<C::ScalarField>()));
                    }
                    if !alias && l.len() >= 2 && s.chance(1, 3) {
                        let (i, d) = (s.upto(l.len() - 1), C::ScalarField::from_canonical_u64(1 + s.below(3)));
                        l[i] = l[i] + d * C::ScalarField::TWO.exp_usize(LIMB);
                        l[i + 1] = l[i + 1] - d;
                    }
                    for (&t, x) in t.limbs.iter().zip(l) {
                        // limbs shared with the inputs or constants keep their value
                        let k = sys.class(t).unwrap();
                        if v[k].is_none() {
                            v[k] = Some(x);
                        }
                    }
                }
            }
        }
        sys.propagate(&mut v, sys.all_eqs());
        // guess what no gate outputs, decomposing values as they become known
        let mut open = free_hints(&sys);
        let wild = s.upto(3) as u64;
        loop {
            while let Some((k, d)) = digits(s, alias, &sys, &v) {
                v[k] = Some(d);
                sys.propagate(&mut v, sys.eqs_of(k));
            }
            open.retain(|&k| v[k].is_none());
            if open.is_empty() {
                break;
            }
            let k = open.swap_remove(s.upto(open.len()));
            v[k] = Some(if s.chance(wild + 1, 4) { C::ScalarField::from_canonical_u64(s.below(2)) } else { sys.value(&generated, k) });
            sys.propagate(&mut v, sys.eqs_of(k));
        }
        sys.solve(s, &mut v, |_, k| sys.value(&generated, k));
        s.nontrivial();
        if violation::<C, I>(&c, &sys.witness(&v)).is_some() {
            s.class("refuted");
            continue;
        }
        s.class("satisfied");
        for (t, n) in &outs {
            let mut got = BigUint::zero();
            for (i, &l) in t.limbs.iter().enumerate() {
                got += big(v[sys.class(l).unwrap()].unwrap()) << (i * LIMB);
            }
            ensure!(got == *n, "a satisfying witness has the result {} instead of {} (inputs {} and {})", got, n, x, y);
            for (i, &l) in t.limbs.iter().enumerate() {
                let l = big(v[sys.class(l).unwrap()].unwrap());
                ensure!(l.bits() as usize <= LIMB, "a satisfying witness has {} as limb {} of the result (inputs {} and {})", l, i, x, y);
            }
        }
        if let Some(o) = order {
            let want = x.cmp(&y);
            for (t, k) in vec![(o.lt, Ordering::Less), (o.eq, Ordering::Equal), (o.gt, Ordering::Greater)] {
                let got = v[sys.class(t).unwrap()].unwrap();
                ensure!(got == C::ScalarField::from_canonical_bool(want == k), "a satisfying witness compares {} and {} wrongly: {:?} is {}", x, y, k, show(got));
            }
        }
    }
    Ok(())
}
fn forged_l(s: &mut Src) -> Res {
    each_pair!(s, forged_of)
}

fn main() {
    let _ = (limb_count(&BigUint::one()), BigUint::one().is_even());
    Suite::new("K04", "Random programs of sums, products, quotients, remainders, comparisons and equality assertions over inputs with random bounds of up to 260 bits and constants, run on three assignments with limb-boundary, extreme and random values; random foreign-field expressions over all six fields; orderings; forged results completed to full witnesses by an adversary who decomposes whatever it claims. Non-trivial: an integer of three or more limbs; an ordinary field element; every case of the other laws.")
        .law("integer gadgets compute integer arithmetic", 400, 15_000, integers_l)
        .law("equality of integers is asserted exactly", 150, 5_000, equal_l)
        .law("valid orderings are the unit vectors", 200, 5_000, ordering_l)
        .law("foreign-field gadgets compute field arithmetic", 60, 3_000, foreign_l)
        .law("forged results have no witness", 400, 15_000, forged_l)
        .run();
}
