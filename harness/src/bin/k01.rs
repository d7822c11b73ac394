//! K01: circuits composed of the arithmetic gadgets.
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn arithmetic<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let shape = Shape { steps: s.tail(1, 40, 300, 50), publics: s.tail(0, 12, 60, 40), virtuals: s.size(0, 8), logic: false, max_exp: 1 << 20 };
    let (ops, pis, vts) = program::<C::ScalarField>(s, shape);
    s.note(|| format!("{:?} on public {} virtual {}", ops, shows(&pis), shows(&vts)));
    let inner = ops.iter().filter(|o| !matches!(o, Op::Public(_) | Op::Virtual(_) | Op::Const(_) | Op::ConstU32(_))).count();
    if inner >= 3 {
        s.nontrivial();
    }
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit(&mut b, &ops);
    // results made public by copying, and public inputs that are copies of one another
    let outs: Vec<usize> = (0..if ops.is_empty() { 0 } else { s.size(0, 12) }).map(|_| s.upto(ops.len())).collect();
    for &o in &outs {
        let pi = b.add_public_input();
        if s.bool() {
            b.copy(pi, t[o]);
        } else {
            b.copy(t[o], pi);
        }
    }
    // targets that a generator sets
    let given: Vec<(Target<C::ScalarField>, C::ScalarField)> = (0..s.size(0, 3))
        .map(|_| {
            let x = elem(s);
            let y = b.add_virtual_target();
            b.generate_constant(y, x);
            (b.double(y), x + x)
        })
        .collect();
    let c = b.build();
    for round in 0..4 {
        let (pis, vts): (Vec<_>, Vec<_>) = if round == 0 {
            (pis.clone(), vts.clone())
        } else {
            ((0..pis.len()).map(|_| elem(s)).collect(), (0..vts.len()).map(|_| elem(s)).collect())
        };
        let want = match run(&ops, &pis, &vts) {
            Some(v) => v,
            None => {
                s.class("inverse of zero");
                continue;
            }
        };
        let w = c.generate_partial_witness(assign(&ops, &t, &pis, &vts));
        let full = complete(&c, &w);
        if let Some(m) = violation::<C, I>(&c, &full) {
            return Err(format!("generated witness for public {} virtual {}: {}", shows(&pis), shows(&vts), m));
        }
        for (i, op) in ops.iter().enumerate() {
            ensure!(w.contains_target(t[i]), "step {} ({:?}) gets no value", i, op);
            let y = w.get_target(t[i]);
            ensure!(y == want[i], "step {} ({:?}) is {} in the witness, {} over the field", i, op, show(y), show(want[i]));
        }
        for (y, x) in &given {
            ensure!(w.get_target(*y) == *x, "twice a generated constant is {} in the witness, {} over the field", show(w.get_target(*y)), show(*x));
        }
        ensure!(w.contains_all_targets(&t) && w.get_targets(&t) == want, "the targets read together differ from those read singly");
        let got = c.get_public_inputs(&full);
        let mut expect = pis.clone();
        expect.extend(outs.iter().map(|&o| want[o]));
        ensure!(got == expect, "public inputs read from the witness are {}, expected are {}", shows(&got), shows(&expect));
    }
    Ok(())
}
fn arithmetic_l(s: &mut Src) -> Res {
    each_pair!(s, arithmetic)
}

fn main() {
    Suite::new("K01", "Random straight-line programs of up to 40 gadgets over up to 12 public inputs, 8 virtual targets and constants (operands shared, repeated and chained), each run on four assignments of small, boundary and random values. Non-trivial: at least three gadgets.")
        .law("every target carries the value of its expression", 500, 20_000, arithmetic_l)
        .run();
}
