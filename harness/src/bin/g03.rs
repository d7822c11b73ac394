//! G03: in-circuit constraint evaluation equals native constraint evaluation.
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

struct Eval<C: HaloCurve> {
    circuit: Circuit<C>,
    /// Constants, local, right and below wires.
    inputs: Vec<Target<C::ScalarField>>,
    outputs: Vec<Target<C::ScalarField>>,
}
const KINDS: usize = 21;
/// The gate's own constraints (even kinds), its filtered constraints (odd kinds), all combined (20).
fn native<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>>(kind: usize, v: &[C::ScalarField]) -> (&'static str, Vec<C::ScalarField>) {
    let (k, w) = v.split_at(CONSTANTS);
    let (l, r, b) = (&w[..WIRES], &w[WIRES..2 * WIRES], &w[2 * WIRES..]);
    macro_rules! g {
        ($t:ty) => {
            (
                <$t as Gate<C>>::NAME,
                if kind % 2 == 0 { <$t as Gate<C>>::evaluate_unfiltered(k, l, r, b) } else { <$t as Gate<C>>::evaluate_filtered(k, l, r, b) },
            )
        };
    }
    match kind / 2 {
        0 => g!(ArithmeticGate<C>),
        1 => g!(BufferGate<C>),
        2 => g!(ConstantGate<C>),
        3 => g!(PublicInputGate<C>),
        4 => g!(RescueStepAGate<C>),
        5 => g!(RescueStepBGate<C>),
        6 => g!(CurveAddGate<C, I>),
        7 => g!(CurveDblGate<C, I>),
        8 => g!(CurveEndoGate<C, I>),
        9 => g!(Base4SumGate<C>),
        _ => ("all gates", evaluate_all_constraints::<C, I>(k, l, r, b)),
    }
}
fn make<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>>(kind: usize) -> Eval<C> {
    let mut builder = CircuitBuilder::<C>::new(128);
    let v = builder.add_virtual_targets(CONSTANTS + 3 * WIRES);
    let (k, w) = v.split_at(CONSTANTS);
    let (l, r, b) = (&w[..WIRES], &w[WIRES..2 * WIRES], &w[2 * WIRES..]);
    macro_rules! g {
        ($t:ty) => {
            if kind % 2 == 0 {
                <$t as Gate<C>>::evaluate_unfiltered_recursively(&mut builder, k, l, r, b)
            } else {
                <$t as Gate<C>>::evaluate_filtered_recursively(&mut builder, k, l, r, b)
            }
        };
    }
    let outputs = match kind / 2 {
        0 => g!(ArithmeticGate<C>),
        1 => g!(BufferGate<C>),
        2 => g!(ConstantGate<C>),
        3 => g!(PublicInputGate<C>),
        4 => g!(RescueStepAGate<C>),
        5 => g!(RescueStepBGate<C>),
        6 => g!(CurveAddGate<C, I>),
        7 => g!(CurveDblGate<C, I>),
        8 => g!(CurveEndoGate<C, I>),
        9 => g!(Base4SumGate<C>),
        _ => evaluate_all_constraints_recursively::<C, I>(&mut builder, k, l, r, b),
    };
    Eval { circuit: builder.build(), inputs: v, outputs }
}
fn equal<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let kind = s.upto(KINDS);
    let e = memo(format!("{} {}", C::CNAME, kind), || make::<C, I>(kind));
    // rows with arbitrary constants, or selecting a gate
    let n = CONSTANTS + 3 * WIRES;
    let mut v: Vec<C::ScalarField> = match s.upto(4) {
        0 => (0..n).map(|_| elem(s)).collect(),
        1 => (0..n).map(|_| C::ScalarField::from_canonical_u64(s.below(4))).collect(),
        2 => vec![elem(s); n],
        _ => many(s, n),
    };
    if s.bool() {
        for x in v[..CONSTANTS].iter_mut() {
            *x = if s.bool() { C::ScalarField::ONE } else { C::ScalarField::ZERO };
        }
        s.class("binary constants");
    }
    let (name, want) = native::<C, I>(kind, &v);
    s.class(name);
    s.note(|| format!("{} ({}) on {}", name, ["own constraints", "filtered"][kind % 2], shows(&v)));
    s.nontrivial();
    let mut w = PartialWitness::new();
    w.set_targets(&e.inputs, &v);
    let w = e.circuit.generate_partial_witness(w);
    ensure!(want.len() == e.outputs.len(), "{}: {} constraints in the circuit, {} natively", name, e.outputs.len(), want.len());
    for (i, (&t, &x)) in e.outputs.iter().zip(&want).enumerate() {
        ensure!(w.contains_target(t), "{}: in-circuit constraint {} gets no value", name, i);
        let y = w.get_target(t);
        ensure!(x == y, "{}: constraint {} evaluates to {} in the circuit, {} natively", name, i, show(y), show(x));
    }
    if s.chance(1, 8) {
        s.class("witness checked");
        if let Some(m) = violation::<C, I>(&e.circuit, &complete(&e.circuit, &w)) {
            return Err(format!("{}: witness of the evaluation circuit: {}", name, m));
        }
    }
    Ok(())
}
fn equal_l(s: &mut Src) -> Res {
    each_pair!(s, equal)
}

fn main() {
    Suite::new("G03", "One evaluation circuit per gate type (own and filtered constraints) and one for all gates combined, per curve pair; random, small, constant and boundary rows, constants arbitrary or binary. Non-trivial: every generated case.")
        .law("in-circuit constraints equal native constraints", 20_000, 400_000, equal_l)
        .run();
}
