//! T02: hashing and transcripts inside circuits against the native ones.
use plonky::plonk_challenger::Challenger;
use plonky::vp_hooks::CircuitTranscript;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// How an observed element enters the circuit.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Feed {
    Virtual,
    Public,
    Constant,
    /// The same target as an earlier element.
    Again(usize),
    /// A challenge drawn earlier.
    Drawn(usize),
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Element(Feed),
    /// Elements as one batch call.
    Batch(usize),
    Point,
    Draw(usize),
}
fn bits(s: &mut Src) -> usize {
    if s.chance(1, 3) {
        s.range(1, 250)
    } else {
        128
    }
}

fn transcript<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let bits = bits(s);
    let mut ops = vec![];
    let (mut elements, mut drawn) = (0, 0);
    let mut budget = 9;
    for _ in 0..s.range(1, 4) {
        for _ in 0..s.size(0, 4) {
            ops.push(match s.weighted(&[6, 1, 1]) {
                0 => {
                    let f = match s.weighted(&[5, 2, 2, 1, 1]) {
                        1 => Feed::Public,
                        2 => Feed::Constant,
                        3 if elements > 0 => Feed::Again(s.upto(elements)),
                        4 if drawn > 0 => Feed::Drawn(s.upto(drawn)),
                        _ => Feed::Virtual,
                    };
                    elements += 1;
                    Op::Element(f)
                }
                1 => {
                    let n = s.tail(0, 5, 40, 30);
                    elements += n;
                    Op::Batch(n)
                }
                _ => {
                    elements += 2;
                    Op::Point
                }
            });
        }
        let n = s.size(0, 7);
        drawn += n;
        ops.push(Op::Draw(n));
        budget -= 1;
        if budget == 0 {
            break;
        }
    }
    s.note(|| format!("security {} history {:?}", bits, ops));
    if drawn > 0 && elements > 0 {
        s.nontrivial();
    }
    let mut b = CircuitBuilder::<C>::new(bits);
    let mut t = CircuitTranscript::<C::ScalarField>::new(&mut b);
    let mut targets = vec![];
    let mut outs: Vec<Target<C::ScalarField>> = vec![];
    let mut constants = vec![];
    for op in &ops {
        match *op {
            Op::Element(f) => {
                let x = match f {
                    Feed::Virtual => b.add_virtual_target(),
                    Feed::Public => b.add_public_input(),
                    Feed::Constant => {
                        let c = elem::<C::ScalarField>(s);
                        constants.push((targets.len(), c));
                        b.constant_wire(c)
                    }
                    Feed::Again(i) => targets[i],
                    Feed::Drawn(i) => outs[i],
                };
                targets.push(x);
                t.observe_element(x);
            }
            Op::Batch(n) => {
                let v = b.add_virtual_targets(n);
                t.observe_elements(&v);
                targets.extend(v);
            }
            Op::Point => {
                let p = b.add_virtual_point_target::<I>();
                t.observe_affine_points(&[p]);
                targets.push(p.x);
                targets.push(p.y);
            }
            Op::Draw(n) => outs.extend(t.get_n_challenges(&mut b, n)),
        }
    }
    let c = b.build();
    for round in 0..3 {
        let mut n = Challenger::<C::ScalarField>::new(bits);
        let mut w = PartialWitness::new();
        let mut values: Vec<C::ScalarField> = vec![];
        let mut want: Vec<C::ScalarField> = vec![];
        for op in &ops {
            match *op {
                Op::Element(f) => {
                    let i = values.len();
                    let x = match f {
                        Feed::Constant => constants.iter().find(|c| c.0 == i).unwrap().1,
                        Feed::Again(j) => values[j],
                        Feed::Drawn(j) => want[j],
                        _ => elem(s),
                    };
                    if matches!(f, Feed::Virtual | Feed::Public) {
                        w.set_target(targets[i], x);
                    }
                    values.push(x);
                    n.observe_element(x);
                }
                Op::Batch(k) => {
                    let v: Vec<C::ScalarField> = (0..k).map(|_| elem(s)).collect();
                    w.set_targets(&targets[values.len()..values.len() + k], &v);
                    n.observe_elements(&v);
                    values.extend(v);
                }
                Op::Point => {
                    let q = point::<I>(s).unwrap_or((I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y));
                    let i = values.len();
                    w.set_point_target(AffinePointTarget::<I> { x: targets[i], y: targets[i + 1] }, aff::<I>(Some(q)));
                    if s.bool() {
                        n.observe_affine_point(aff::<I>(Some(q)));
                    } else {
                        n.observe_proj_point(proj::<I>(s, Some(q)));
                    }
                    values.push(q.0);
                    values.push(q.1);
                }
                Op::Draw(k) => want.extend(n.get_n_challenges(k)),
            }
        }
        let w = c.generate_partial_witness(w);
        for (i, (&t, &x)) in outs.iter().zip(&want).enumerate() {
            ensure!(w.contains_target(t), "challenge {} of the circuit gets no value", i);
            let y = w.get_target(t);
            ensure!(y == x, "challenge {} is {} in the circuit, {} natively (observed {})", i, show(y), show(x), shows(&values));
        }
        if round == 0 {
            if let Some(m) = violation::<C, I>(&c, &complete(&c, &w)) {
                return Err(format!("witness of the transcript circuit: {}", m));
            }
        }
    }
    Ok(())
}
fn hash<C: HaloCurve + CurveRef, I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let bits = bits(s);
    let n = s.tail(0, 10, 50, 30);
    let m = if s.chance(1, 40) { s.range(9, 30) } else { s.range(1, 8) };
    let how = s.upto(5);
    let mut b = CircuitBuilder::<C>::new(bits);
    let public = s.chance(1, 3);
    let n = if how == 4 { 4 } else { n };
    let x = if public { b.add_public_inputs(n) } else { b.add_virtual_targets(n) };
    let (name, out) = match how {
        0 => ("hash to 1", vec![b.rescue_hash_n_to_1(&x)]),
        1 => {
            let (p, q) = b.rescue_hash_n_to_2(&x);
            ("hash to 2", vec![p, q])
        }
        2 => {
            let (p, q, r) = b.rescue_hash_n_to_3(&x);
            ("hash to 3", vec![p, q, r])
        }
        3 => ("sponge", b.rescue_sponge(&x, m)),
        _ => ("permutation", b.rescue_permutation(&x)),
    };
    s.class(name);
    s.note(|| format!("{} of {} inputs ({}), {} outputs, security {}", name, n, if public { "public" } else { "virtual" }, out.len(), bits));
    s.nontrivial();
    let c = b.build();
    for round in 0..4 {
        let v: Vec<C::ScalarField> = coeffs(s, n);
        let want = match how {
            0 => vec![rescue_hash_n_to_1(v.clone(), bits)],
            1 => {
                let (p, q) = rescue_hash_n_to_2(v.clone(), bits);
                vec![p, q]
            }
            2 => {
                let (p, q, r) = rescue_hash_n_to_3(v.clone(), bits);
                vec![p, q, r]
            }
            3 => rescue_sponge(v.clone(), m, bits),
            _ => rescue_permutation(&v, bits),
        };
        let mut w = PartialWitness::new();
        w.set_targets(&x, &v);
        let w = c.generate_partial_witness(w);
        ensure!(out.len() == want.len(), "{} outputs in the circuit, {} natively", out.len(), want.len());
        for (i, (&t, &x)) in out.iter().zip(&want).enumerate() {
            ensure!(w.contains_target(t), "output {} of the circuit gets no value", i);
            let y = w.get_target(t);
            ensure!(y == x, "{} output {} is {} in the circuit, {} natively, for {}", name, i, show(y), show(x), shows(&v));
        }
        if round == 0 {
            if let Some(m) = violation::<C, I>(&c, &complete(&c, &w)) {
                return Err(format!("witness of the hash circuit: {}", m));
            }
        }
    }
    Ok(())
}
fn transcript_l(s: &mut Src) -> Res {
    each_pair!(s, transcript)
}
fn hash_l(s: &mut Src) -> Res {
    each_pair!(s, hash)
}

fn main() {
    Suite::new("T02", "Circuits generated from random histories of observations (virtual, public and constant elements, points, batches, repeated targets, earlier challenges) and requests, each run on three value assignments; hash gadgets of 0-10 inputs and 1-8 outputs on four assignments. Non-trivial: something observed and something drawn; every hash case.")
        .law("transcript in the circuit equals the native transcript", 500, 12_000, transcript_l)
        .law("hash gadgets equal the native hash", 400, 10_000, hash_l)
        .run();
}
