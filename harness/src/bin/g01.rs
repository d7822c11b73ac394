//! G01: each gate's constraints are satisfied exactly by correct assignments of the gate, and its
//! generator produces such an assignment.
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

trait Halo: HaloCurve + CurveRef {}
impl<T: HaloCurve + CurveRef> Halo for T {}

#[derive(Clone, Debug, PartialEq)]
struct Rows<F: Field> {
    k: Vec<F>,
    l: Vec<F>,
    r: Vec<F>,
    b: Vec<F>,
}
impl<F: FieldRef> Rows<F> {
    fn show(&self) -> String {
        format!("constants {} local {} right {} below {}", shows(&self.k), shows(&self.l), shows(&self.r), shows(&self.b))
    }
    fn cell(&mut self, i: usize) -> &mut F {
        match i / WIRES {
            0 => &mut self.l[i % WIRES],
            1 => &mut self.r[i % WIRES],
            _ => &mut self.b[i % WIRES],
        }
    }
}
/// What a gate type stands for: a full assignment is right or wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Arithmetic,
    Constant,
    Buffer,
    PublicInput,
    RescueA,
    RescueB,
    Add,
    Dbl,
    Base4,
    Endo,
}
use Kind::*;
const KINDS: [Kind; 10] = [Arithmetic, Constant, Buffer, PublicInput, RescueA, RescueB, Add, Dbl, Base4, Endo];
/// The number of constants the selector of the gate takes up.
fn offset(k: Kind) -> usize {
    match k {
        Arithmetic | Base4 => 4,
        Constant | Add | Dbl => 5,
        Buffer | PublicInput => 6,
        _ => 2,
    }
}
fn fifth<F: Field>(x: F) -> F {
    let y = x * x;
    y * y * x
}
fn bit<F: Field>(x: F) -> bool {
    x == F::ZERO || x == F::ONE
}
fn inv<F: Field>(x: F) -> F {
    x.multiplicative_inverse().unwrap_or(F::ZERO)
}
/// The addend of the endomorphism gate: (+-) P or its image, chosen by two bits.
fn endo_addend<I: Halo>(l: &[I::BaseField]) -> (I::BaseField, I::BaseField) {
    let one = I::BaseField::ONE;
    let x = if l[7] == one { l[4] * I::ZETA } else { l[4] };
    let y = if l[6] == one { l[5] } else { I::BaseField::ZERO - l[5] };
    (x, y)
}
/// Chord through two points of different abscissa, whether or not they lie on the curve.
fn chord<F: Field>(x1: F, y1: F, x2: F, y2: F) -> (F, F, F) {
    let lam = (y1 - y2) * inv(x1 - x2);
    let x3 = lam * lam - x1 - x2;
    (lam, x3, lam * (x1 - x3) - y1)
}
fn correct<C: Halo, I: Halo>(k: Kind, a: &Rows<C::ScalarField>) -> bool
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
{
    let c = &a.k[offset(k).min(CONSTANTS)..];
    let (l, r, b) = (&a.l, &a.r, &a.b);
    let one = C::ScalarField::ONE;
    match k {
        Arithmetic => l[3] == c[0] * l[0] * l[1] + c[1] * l[2],
        Constant => l[0] == c[0],
        Buffer => true,
        PublicInput => (0..3).all(|i| l[6 + i] == r[i]),
        RescueA => (0..4).all(|i| fifth(l[4 + i]) == l[i]) && ref_mix(&l[4..8], c) == r[..4],
        RescueB => {
            let e: Vec<_> = l[..4].iter().map(|&x| fifth(x)).collect();
            ref_mix(&e, c) == r[..4]
        }
        Add => {
            let (lam, x3, y3) = chord(l[0], l[1], l[4], l[5]);
            let want = if l[6] == one { (x3, y3) } else { (l[0], l[1]) };
            bit(l[6]) && l[0] != l[4] && l[7] == inv(l[0] - l[4]) && l[8] == lam && (r[0], r[1]) == want && l[3] == l[2] + l[2] + l[6]
        }
        Dbl => {
            let i = inv(l[1] + l[1]);
            let sq = l[0] * l[0];
            let lam = (sq + sq + sq + I::A) * i;
            let x3 = lam * lam - l[0] - l[0];
            l[1] != C::ScalarField::ZERO && l[4] == i && l[5] == lam && l[2] == x3 && l[3] == lam * (l[0] - x3) - l[1]
        }
        Base4 => {
            let mut acc = l[0];
            for &d in &l[2..9] {
                if !(0..4u64).any(|v| d == C::ScalarField::from_canonical_u64(v)) {
                    return false;
                }
                acc = acc + acc;
                acc = acc + acc + d;
            }
            l[1] == acc
        }
        Endo => {
            if !bit(l[6]) || !bit(l[7]) {
                return false;
            }
            let (x2, y2) = endo_addend::<I>(l);
            if l[0] == x2 || l[8] != inv(l[0] - x2) {
                return false;
            }
            let (_, x3, y3) = chord(l[0], l[1], x2, y2);
            let limb = if l[7] == one { I::ZETA } else { one };
            let limb = if l[6] == one { limb } else { C::ScalarField::ZERO - limb };
            let four = l[2] + l[2] + l[2] + l[2];
            (r[0], r[1]) == (x3, y3) && b[2] == four + l[7] + l[7] + l[6] && b[3] == l[3] + l[3] + limb
        }
    }
}
fn constraints<C: Halo, I: Halo>(k: Kind, a: &Rows<C::ScalarField>) -> Vec<C::ScalarField>
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    let f = match k {
        Arithmetic => ArithmeticGate::<C>::evaluate_unfiltered,
        Constant => ConstantGate::<C>::evaluate_unfiltered,
        Buffer => BufferGate::<C>::evaluate_unfiltered,
        PublicInput => PublicInputGate::<C>::evaluate_unfiltered,
        RescueA => RescueStepAGate::<C>::evaluate_unfiltered,
        RescueB => RescueStepBGate::<C>::evaluate_unfiltered,
        Add => CurveAddGate::<C, I>::evaluate_unfiltered,
        Dbl => CurveDblGate::<C, I>::evaluate_unfiltered,
        Base4 => Base4SumGate::<C>::evaluate_unfiltered,
        Endo => CurveEndoGate::<C, I>::evaluate_unfiltered,
    };
    f(&a.k, &a.l, &a.r, &a.b)
}
fn generator<C: Halo, I: Halo>(k: Kind, index: usize) -> Box<dyn WitnessGenerator<C::ScalarField>>
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    match k {
        Arithmetic => Box::new(ArithmeticGate::<C>::new(index)),
        Constant => Box::new(ConstantGate::<C>::new(index)),
        Buffer => Box::new(BufferGate::<C>::new(index)),
        PublicInput => Box::new(PublicInputGate::<C>::new(index)),
        RescueA => Box::new(RescueStepAGate::<C>::new(index)),
        RescueB => Box::new(RescueStepBGate::<C>::new(index)),
        Add => Box::new(CurveAddGate::<C, I>::new(index)),
        Dbl => Box::new(CurveDblGate::<C, I>::new(index)),
        Base4 => Box::new(Base4SumGate::<C>::new(index)),
        Endo => Box::new(CurveEndoGate::<C, I>::new(index)),
    }
}
/// Random rows whose inputs are admissible for the gate: points of the inner curve (or arbitrary
/// coordinate pairs) with different abscissae, bits, dibits.
fn inputs<C: Halo, I: Halo>(s: &mut Src, k: Kind, on_curve: bool) -> Rows<C::ScalarField>
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let row = |s: &mut Src| -> Vec<C::ScalarField> {
        match s.upto(3) {
            0 => many(s, WIRES),
            1 => (0..WIRES).map(|_| elem(s)).collect(),
            _ => {
                let mut v = many(s, WIRES);
                v[s.upto(WIRES)] = elem(s);
                v
            }
        }
    };
    let mut a = Rows { k: row(s)[..CONSTANTS].to_vec(), l: row(s), r: row(s), b: row(s) };
    let f = |x: u64| C::ScalarField::from_canonical_u64(x);
    match k {
        Add | Endo => {
            let on_curve = s.chance(3, 4) || on_curve;
            if on_curve {
                s.class("points of the curve");
                let mut set = |s: &mut Src, i: usize| {
                    let q = point::<I>(s).unwrap_or((I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y));
                    a.l[i] = q.0;
                    a.l[i + 1] = q.1;
                };
                set(s, 0);
                set(s, 4);
                if s.chance(1, 8) {
                    // same or opposite ordinate, another abscissa
                    if let Some((x, y)) = same_y::<I>(Some((a.l[0], a.l[1]))) {
                        a.l[4] = x;
                        a.l[5] = if s.bool() { y } else { C::ScalarField::ZERO - y };
                    }
                }
            }
            a.l[6] = f(s.below(2));
            if k == Endo {
                a.l[7] = f(s.below(2));
            }
            for j in 0.. {
                let x2 = if k == Endo { endo_addend::<I>(&a.l).0 } else { a.l[4] };
                if x2 != a.l[0] {
                    break;
                }
                if on_curve {
                    let q = I::pool()[j].1.unwrap();
                    a.l[0] = q.0;
                    a.l[1] = q.1;
                } else {
                    a.l[0] = a.l[0] + C::ScalarField::ONE;
                }
            }
        }
        Dbl => {
            if s.chance(3, 4) || on_curve {
                s.class("points of the curve");
                let q = point::<I>(s).unwrap_or((I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y));
                a.l[0] = q.0;
                a.l[1] = q.1;
            }
            if a.l[1] == C::ScalarField::ZERO {
                a.l[1] = C::ScalarField::ONE;
            }
        }
        Base4 => {
            for i in 2..9 {
                a.l[i] = f(s.below(4));
            }
        }
        _ => {}
    }
    a
}
/// Fill in the outputs the gate stands for.
fn complete<C: Halo, I: Halo>(k: Kind, a: &mut Rows<C::ScalarField>)
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
{
    let o = offset(k).min(CONSTANTS);
    let one = C::ScalarField::ONE;
    match k {
        Arithmetic => a.l[3] = a.k[o] * a.l[0] * a.l[1] + a.k[o + 1] * a.l[2],
        Constant => a.l[0] = a.k[o],
        Buffer => {}
        PublicInput => (0..3).for_each(|i| a.r[i] = a.l[6 + i]),
        RescueA => {
            // choose the roots, derive the inputs
            for i in 0..4 {
                a.l[i] = fifth(a.l[4 + i]);
            }
            let m = ref_mix(&a.l[4..8], &a.k[o..]);
            a.r[..4].copy_from_slice(&m);
        }
        RescueB => {
            let e: Vec<_> = a.l[..4].iter().map(|&x| fifth(x)).collect();
            let m = ref_mix(&e, &a.k[o..]);
            a.r[..4].copy_from_slice(&m);
        }
        Add => {
            let (lam, x3, y3) = chord(a.l[0], a.l[1], a.l[4], a.l[5]);
            a.l[7] = inv(a.l[0] - a.l[4]);
            a.l[8] = lam;
            a.l[3] = a.l[2] + a.l[2] + a.l[6];
            let w = if a.l[6] == one { (x3, y3) } else { (a.l[0], a.l[1]) };
            a.r[0] = w.0;
            a.r[1] = w.1;
        }
        Dbl => {
            let sq = a.l[0] * a.l[0];
            a.l[4] = inv(a.l[1] + a.l[1]);
            let lam = (sq + sq + sq + I::A) * a.l[4];
            a.l[5] = lam;
            a.l[2] = lam * lam - a.l[0] - a.l[0];
            a.l[3] = lam * (a.l[0] - a.l[2]) - a.l[1];
        }
        Base4 => {
            let mut acc = a.l[0];
            for &d in &a.l[2..9] {
                acc = acc + acc;
                acc = acc + acc + d;
            }
            a.l[1] = acc;
        }
        Endo => {
            let (x2, y2) = endo_addend::<I>(&a.l);
            let (_, x3, y3) = chord(a.l[0], a.l[1], x2, y2);
            a.l[8] = inv(a.l[0] - x2);
            a.r[0] = x3;
            a.r[1] = y3;
            let limb = if a.l[7] == one { I::ZETA } else { one };
            let limb = if a.l[6] == one { limb } else { C::ScalarField::ZERO - limb };
            a.b[2] = a.l[2] + a.l[2] + a.l[2] + a.l[2] + a.l[7] + a.l[7] + a.l[6];
            a.b[3] = a.l[3] + a.l[3] + limb;
        }
    }
}
/// Complete assignments from inadmissible choices: digits outside their range, wrong inverses. All
/// else follows the gate's formulas, so that nothing but the choice itself is wrong.
fn deviate<C: Halo, I: Halo>(s: &mut Src, k: Kind, a: &mut Rows<C::ScalarField>)
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
{
    let one = C::ScalarField::ONE;
    let odd = |s: &mut Src| -> C::ScalarField {
        match s.upto(4) {
            0 => C::ScalarField::from_canonical_u64(s.below(18)),
            1 => C::ScalarField::ZERO - C::ScalarField::from_canonical_u64(s.below(6)),
            2 => inv(C::ScalarField::from_canonical_u64(2 + s.below(4))),
            _ => elem(s),
        }
    };
    let digit = s.bool();
    let mut wrong_inv = |s: &mut Src, x: C::ScalarField| -> C::ScalarField {
        if digit && s.chance(5, 6) {
            return inv(x);
        }
        match s.upto(4) {
            0 => C::ScalarField::ZERO,
            1 => C::ScalarField::ZERO - inv(x),
            2 => x,
            _ => odd(s),
        }
    };
    match k {
        Base4 => {
            for _ in 0..s.size(1, 2) {
                let i = 2 + s.upto(7);
                a.l[i] = odd(s);
            }
            complete::<C, I>(k, a);
        }
        Add => {
            if digit {
                a.l[6] = odd(s);
            }
            a.l[7] = wrong_inv(s, a.l[0] - a.l[4]);
            a.l[8] = (a.l[1] - a.l[5]) * a.l[7];
            let x3 = a.l[8] * a.l[8] - a.l[0] - a.l[4];
            // the chord's third abscissa is the selected one
            let b = a.l[6];
            a.r[0] = b * x3 + (one - b) * a.l[0];
            let y3 = a.l[8] * (a.l[0] - if s.bool() { x3 } else { a.r[0] }) - a.l[1];
            a.r[1] = b * y3 + (one - b) * a.l[1];
            a.l[3] = a.l[2] + a.l[2] + b;
        }
        Endo => {
            if digit {
                let j = 6 + s.upto(2);
                a.l[j] = odd(s);
            }
            let m = (I::ZETA - one) * a.l[7] + one;
            let sign = a.l[6] + a.l[6] - one;
            let (x2, y2) = (m * a.l[4], sign * a.l[5]);
            a.l[8] = wrong_inv(s, a.l[0] - x2);
            let lam = (a.l[1] - y2) * a.l[8];
            a.r[0] = lam * lam - a.l[0] - x2;
            a.r[1] = lam * (a.l[0] - a.r[0]) - a.l[1];
            a.b[2] = a.l[2] + a.l[2] + a.l[2] + a.l[2] + a.l[7] + a.l[7] + a.l[6];
            a.b[3] = a.l[3] + a.l[3] + sign * m;
        }
        Dbl => {
            if s.chance(1, 4) {
                // doubling a point of order two has no result
                a.l[1] = C::ScalarField::ZERO;
            }
            let sq = a.l[0] * a.l[0];
            a.l[4] = wrong_inv(s, a.l[1] + a.l[1]);
            a.l[5] = (sq + sq + sq + I::A) * a.l[4];
            a.l[2] = a.l[5] * a.l[5] - a.l[0] - a.l[0];
            a.l[3] = a.l[5] * (a.l[0] - a.l[2]) - a.l[1];
        }
        RescueA => {
            // roots of other elements, or with a sign
            complete::<C, I>(k, a);
            let i = s.upto(4);
            a.l[4 + i] = if s.bool() { C::ScalarField::ZERO - a.l[4 + i] } else { odd(s) };
            let m = ref_mix(&a.l[4..8], &a.k[offset(k)..]);
            a.r[..4].copy_from_slice(&m);
        }
        RescueB => {
            complete::<C, I>(k, a);
            // another power of one of the inputs
            let i = s.upto(4);
            let mut e: Vec<_> = a.l[..4].iter().map(|&x| fifth(x)).collect();
            e[i] = (0..s.upto(5)).fold(one, |r, _| r * a.l[i]);
            let m = ref_mix(&e, &a.k[offset(k)..]);
            a.r[..4].copy_from_slice(&m);
        }
        PublicInput => {
            complete::<C, I>(k, a);
            // a permutation of the values carried over
            let (i, j) = (s.upto(3), s.upto(3));
            a.r.swap(i, j);
        }
        _ => complete::<C, I>(k, a),
    }
}
fn class(s: &mut Src, k: Kind) {
    s.class(match k {
        Arithmetic => "arithmetic",
        Constant => "constant",
        Buffer => "buffer",
        PublicInput => "public input",
        RescueA => "Rescue A",
        RescueB => "Rescue B",
        Add => "curve addition",
        Dbl => "curve doubling",
        Base4 => "base 4",
        Endo => "endomorphism",
    });
}
fn judge<C: Halo, I: Halo>(k: Kind, a: &Rows<C::ScalarField>, what: &str) -> Res
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
{
    let zero = constraints::<C, I>(k, a).iter().all(|&x| x == C::ScalarField::ZERO);
    let want = correct::<C, I>(k, a);
    ensure!(zero == want, "{:?} gate, {}: constraints {} for {}", k, what, if zero { "hold, though the assignment is wrong," } else { "are violated, though the assignment is right," }, a.show());
    Ok(())
}

/// Constraints hold exactly on correct assignments: complete ones, each one-cell change of them, and
/// arbitrary rows.
fn exact<C: Halo, I: Halo>(s: &mut Src) -> Res
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let k = *s.pick(&KINDS);
    class(s, k);
    let mut a = inputs::<C, I>(s, k, false);
    if s.chance(1, 8) {
        s.note(|| format!("{:?} arbitrary {}", k, a.show()));
        return judge::<C, I>(k, &a, "arbitrary rows");
    }
    complete::<C, I>(k, &mut a);
    s.note(|| format!("{:?} {}", k, a.show()));
    s.nontrivial();
    ensure!(correct::<C, I>(k, &a), "the model's own completion is wrong for {:?}", k);
    judge::<C, I>(k, &a, "complete assignment")?;
    let delta = match s.upto(4) {
        0 => C::ScalarField::ONE,
        1 => C::ScalarField::NEG_ONE,
        2 => C::ScalarField::ZERO,
        _ => nonzero(s),
    };
    for i in 0..3 * WIRES {
        let mut b = a.clone();
        let v = *b.cell(i);
        // a zero delta stands for negating the value
        *b.cell(i) = if delta == C::ScalarField::ZERO { C::ScalarField::ZERO - v } else { v + delta };
        judge::<C, I>(k, &b, "one cell changed")?;
        let mut b = a.clone();
        *b.cell(i) = if v == C::ScalarField::ZERO { C::ScalarField::TWO } else { C::ScalarField::ZERO };
        judge::<C, I>(k, &b, "one cell changed")?;
    }
    // two cells changed together
    for _ in 0..8 {
        let mut b = a.clone();
        let (i, j) = (s.upto(3 * WIRES), s.upto(3 * WIRES));
        let x = uniform(s);
        *b.cell(i) = *b.cell(i) + x;
        *b.cell(j) = if s.bool() { *b.cell(j) - x } else { uniform(s) };
        judge::<C, I>(k, &b, "two cells changed")?;
    }
    for _ in 0..12 {
        let mut b = a.clone();
        deviate::<C, I>(s, k, &mut b);
        judge::<C, I>(k, &b, "inadmissible choice carried through")?;
    }
    for c in 0..CONSTANTS {
        let mut b = a.clone();
        b.k[c] = b.k[c] + C::ScalarField::ONE;
        judge::<C, I>(k, &b, "one constant changed")?;
    }
    Ok(())
}
/// What the witness generator of a gate needs and what it makes of it.
fn generates<C: Halo, I: Halo>(s: &mut Src) -> Res
where
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let k = *s.pick(&[Arithmetic, Constant, PublicInput, RescueA, RescueB, Add, Dbl, Endo, Buffer]);
    class(s, k);
    let mut a = inputs::<C, I>(s, k, true);
    complete::<C, I>(k, &mut a);
    let index = s.upto(5);
    s.note(|| format!("{:?} at row {}: {}", k, index, a.show()));
    s.nontrivial();
    let constants: Vec<Vec<C::ScalarField>> = (0..6).map(|i| if i == index { a.k.clone() } else { many(s, CONSTANTS) }).collect();
    // the gate's inputs, as rows hold them
    let ins: Vec<usize> = match k {
        Arithmetic => vec![0, 1, 2],
        Constant | Buffer => vec![],
        PublicInput => vec![6, 7, 8],
        RescueA | RescueB => vec![0, 1, 2, 3],
        Add => vec![0, 1, 2, 4, 5, 6],
        Dbl => vec![0, 1],
        Endo => vec![0, 1, 2, 3, 4, 5, 6, 7],
        Base4 => unreachable!(),
    };
    let g = generator::<C, I>(k, index);
    let wire = |i: usize| {
        let gate = match i / WIRES {
            0 => index,
            1 => index + 1,
            _ => index + GRID,
        };
        Wire { gate, input: i % WIRES }
    };
    let mut w = PartialWitness::new();
    let given = if s.chance(1, 4) { ins.clone() } else { g.dependencies().iter().filter_map(|t| if let Target::Wire(w) = t { Some(w.input) } else { None }).collect() };
    if k == PublicInput {
        ins.iter().for_each(|&i| w.set_wire(wire(i), a.l[i]));
    }
    for &i in &given {
        if !w.contains_wire(wire(i)) {
            w.set_wire(wire(i), a.l[i]);
        }
    }
    let out = catching(|| g.generate(&constants, &w)).map_err(|m| format!("{:?} generator failed although its dependencies are set: {}", k, m))?;
    // where nothing was generated, the row keeps the (arbitrary or given) value of the case
    let mut got = a.clone();
    let mut written = vec![];
    for i in 0..3 * WIRES {
        if out.contains_wire(wire(i)) {
            written.push(i);
            *got.cell(i) = out.get_wire(wire(i));
        }
    }
    ensure!(written.len() == out.all_populated_targets().len(), "{:?} generator writes outside its row, the next and the one below", k);
    for i in 0..3 * WIRES {
        let (x, y) = (*got.cell(i), *a.cell(i));
        ensure!(x == y, "{:?} generator: cell {} (local 0-8, right 9-17, below 18-26) is {}, expected {}", k, i, show(x), show(y));
    }
    // everything that is a function of the inputs has been produced
    let outs: Vec<usize> = match k {
        Arithmetic => vec![3],
        Constant => vec![0],
        Buffer => vec![],
        PublicInput => vec![9, 10, 11],
        RescueA => vec![4, 5, 6, 7, 9, 10, 11, 12],
        RescueB => vec![9, 10, 11, 12],
        Add => vec![3, 7, 8, 9, 10],
        Dbl => vec![2, 3, 4, 5],
        Endo => vec![8, 9, 10, 20, 21],
        Base4 => unreachable!(),
    };
    for o in outs {
        ensure!(written.contains(&o), "{:?} generator leaves cell {} unset", k, o);
    }
    judge::<C, I>(k, &got, "generated assignment")
}
fn exact_l(s: &mut Src) -> Res {
    each_pair!(s, exact)
}
fn generates_l(s: &mut Src) -> Res {
    each_pair!(s, generates)
}

fn main() {
    Suite::new("G01", "Every gate type on random, boundary and curve-point rows with arbitrary unused cells; the generator run with exactly its declared dependencies. Non-trivial: a complete correct assignment (with all one-cell and some two-cell changes), or a generator run.")
        .law("constraints hold exactly for correct assignments", 12_000, 400_000, exact_l)
        .law("generators produce the correct assignment", 12_000, 400_000, generates_l)
        .run();
}
