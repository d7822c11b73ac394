//! Z04: an unsatisfying witness never yields an accepted proof.
use plonky::*;
use std::collections::HashMap;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::prover::*;
use vh::refs::*;
use vh::*;

type Rows<F> = Vec<Vec<F>>;
fn key<C: HaloCurve>(c: &Circuit<C>) -> VerificationKey<C> {
    let mut vk = c.to_vk();
    vk.clear_msm_precomputation();
    vk
}
fn accepts<C, I>(vk: &VerificationKey<C>, pis: &[C::ScalarField], p: &Proof<C>) -> bool
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    matches!(catching(|| verify_proof::<C, I>(pis, p, &[], vk, false)), Ok(Ok(_)))
}
/// Alter wires in one of many ways.
fn disturb<F: FieldRef>(s: &mut Src, r: &mut Rows<F>) -> String {
    let n = r.len();
    let (i, j) = (s.upto(n), s.upto(WIRES));
    match s.upto(9) {
        0 => {
            r[i][j] = elem(s);
            format!("wire {} of row {} replaced", j, i)
        }
        1 => {
            r[i][j] = r[i][j] + F::ONE;
            format!("wire {} of row {} incremented", j, i)
        }
        2 => {
            r[i][j] = -r[i][j];
            format!("wire {} of row {} negated", j, i)
        }
        3 => {
            let k = s.upto(WIRES);
            r[i].swap(j, k);
            format!("wires {} and {} of row {} exchanged", j, k, i)
        }
        4 => {
            let k = s.upto(n);
            let t = r[i][j];
            r[i][j] = r[k][j];
            r[k][j] = t;
            format!("wire {} of rows {} and {} exchanged", j, i, k)
        }
        5 => {
            let k = s.upto(n);
            r.swap(i, k);
            format!("rows {} and {} exchanged", i, k)
        }
        6 => {
            // everywhere it is found
            let (from, to) = (r[i][j], elem(s));
            for x in r.iter_mut().flatten() {
                if *x == from {
                    *x = to;
                }
            }
            format!("all {} replaced", show(from))
        }
        7 => {
            let k = s.range(1, n - 1);
            r.rotate_left(k);
            format!("rows rotated by {}", k)
        }
        _ => {
            let (k, l) = (s.upto(n), s.upto(WIRES));
            let d = nonzero::<F>(s);
            r[i][j] = r[i][j] + d;
            r[k][l] = r[k][l] - d;
            format!("moved from wire {} of row {} to wire {} of row {}", l, k, j, i)
        }
    }
}
/// An accumulator other than the honest one.
fn accumulator<F: FieldRef>(s: &mut Src) -> (&'static str, Box<dyn Fn(Vec<F>) -> Vec<F>>) {
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => ("honest accumulator", Box::new(|z| z)),
        1 => ("zero accumulator", Box::new(|z| vec![F::ZERO; z.len()])),
        2 => ("constant accumulator", Box::new(|z| vec![F::ONE; z.len()])),
        3 => {
            let d = nonzero::<F>(s);
            ("scaled accumulator", Box::new(move |z| z.into_iter().map(|x| x * d).collect()))
        }
        4 => {
            // correct transitions from 1 somewhere else
            let k = s.u64() as usize;
            (
                "accumulator started elsewhere",
                Box::new(move |z| {
                    let k = k % z.len();
                    match z[k].multiplicative_inverse() {
                        Some(d) => z.into_iter().map(|x| x * d).collect(),
                        None => z,
                    }
                }),
            )
        }
        _ => {
            let k = s.u64() as usize;
            (
                "accumulator one only at one row",
                Box::new(move |z| {
                    let n = z.len();
                    (0..n).map(|i| if i == k % n || i == 0 { F::ONE } else { F::ZERO }).collect()
                }),
            )
        }
    }
}
fn judge<C, I>(s: &mut Src, c: &Circuit<C>, rows: Rows<C::ScalarField>, what: &str) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let w = Witness::new(rows.clone());
    let (gate, copy) = (gate_violation::<C, I>(c, &w), copy_violation(c, &w));
    let bad = match (&gate, &copy) {
        (None, None) => {
            s.discarded = true;
            return Ok(());
        }
        (Some(_), Some(_)) => "gate and copy constraints violated",
        (Some(_), None) => "only gate constraints violated",
        _ => "only copy constraints violated",
    };
    s.nontrivial();
    s.class(bad);
    let vk = key(c);
    s.note(|| format!("{} rows, {}: {}", c.degree(), what, gate.as_ref().or(copy.as_ref()).unwrap()));
    if s.chance(1, 6) {
        s.class("the code's prover");
        let made = catching(|| c.generate_proof::<I>(&w, &[], s.bool()));
        if let Ok(Ok(p)) = made {
            let pis = c.get_public_inputs(&w);
            ensure!(!accepts::<C, I>(&vk, &pis, &p), "accepted with {}, although {}", what, gate.or(copy).unwrap());
        } else {
            s.class("no proof made");
        }
    } else {
        let (name, f) = accumulator::<C::ScalarField>(s);
        s.class(name);
        let plan = Plan { accumulator: Some(&*f), blinding: s.bool(), ..Plan::default() };
        match prove::<C, I>(c, &rows, &[], &plan) {
            Ok((p, pis)) => ensure!(!accepts::<C, I>(&vk, &pis, &p), "accepted with {} and {}, although {}", what, name, gate.or(copy).unwrap()),
            Err(_) => s.class("no proof made"),
        }
    }
    Ok(())
}
fn programs<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let gadgets = s.chance(1, 4);
    let i = instance::<C, I>(s, Size { steps: 10, publics: 6, gadgets, bits: 128 });
    if i.c.degree() > 512 {
        s.discarded = true;
        return Ok(());
    }
    let n = i.c.degree();
    let used = i.c.num_gates_without_pis + 2 * ((i.pis.len() + 8) / 9);
    let mut rows: Rows<C::ScalarField> = (0..n).map(|k| wire_row(&i.w, k)).collect();
    let mut what = String::new();
    for _ in 0..6 {
        // mostly among the rows that mean something
        let part = if s.chance(3, 4) { used.max(2).min(n) } else { n };
        let mut head: Rows<_> = rows[..part].to_vec();
        what = format!("{} {}", what, disturb(s, &mut head));
        rows[..part].clone_from_slice(&head);
        if violation::<C, I>(&i.c, &Witness::new(rows.clone())).is_some() && !s.chance(1, 8) {
            break;
        }
    }
    judge::<C, I>(s, &i.c, rows, &what)
}
/// Circuits of nothing but copies, so that only the permutation argument can notice.
fn copies<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let mut b = CircuitBuilder::<C>::new(128);
    let gates = s.range(1, 28);
    for _ in 0..gates {
        let g = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(g));
    }
    for _ in 0..s.size(1, 24) {
        let mut wire = |s: &mut Src| Target::Wire(Wire { gate: s.upto(gates), input: s.upto(ROUTED) });
        let (x, y) = (wire(s), wire(s));
        b.copy(x, y);
    }
    let c = b.build();
    let n = c.degree();
    let few: Vec<C::ScalarField> = many(s, 4);
    let mut of_class: HashMap<Vec<(usize, usize)>, C::ScalarField> = HashMap::new();
    let mut rows: Rows<C::ScalarField> = vec![];
    for gate in 0..n {
        rows.push(
            (0..WIRES)
                .map(|input| {
                    let mut class: Vec<(usize, usize)> = c
                        .routing_target_partitions
                        .get_partition(Target::Wire(Wire { gate, input }))
                        .iter()
                        .filter_map(|t| if let Target::Wire(w) = t { Some((w.gate, w.input)) } else { None })
                        .collect();
                    class.push((gate, input));
                    class.sort_unstable();
                    class.dedup();
                    *of_class.entry(class).or_insert_with(|| few[s.upto(4)])
                })
                .collect(),
        );
    }
    if let Some(e) = violation::<C, I>(&c, &Witness::new(rows.clone())) {
        return Err(format!("values equal over each class of copies violate: {}", e));
    }
    let mut head: Rows<_> = rows[..gates.max(2)].to_vec();
    let mut what = String::new();
    for _ in 0..8 {
        what = format!("{} {}", what, disturb(s, &mut head));
        rows[..gates.max(2)].clone_from_slice(&head);
        if copy_violation(&c, &Witness::new(rows.clone())).is_some() {
            break;
        }
    }
    judge::<C, I>(s, &c, rows, &what)
}
fn programs_l(s: &mut Src) -> Res {
    each_pair!(s, programs)
}
fn copies_l(s: &mut Src) -> Res {
    each_pair!(s, copies)
}
fn main() {
    Suite::new("Z04", "Random circuits on all curve pairs (4 to 512 rows; gadgets of up to ten steps, public inputs, a quarter also hashes, curve operations, integers, digits) and circuits of nothing but copies, whose satisfying assignment is disturbed: wires replaced, off by one, negated, exchanged within a row, a column or whole rows, moved amounts, rotated rows, a value replaced wherever it is found. Proved with the code's prover without its assertions, or with a prover of our own that also replaces the permutation accumulator (zero, constant, scaled, started elsewhere). Non-trivial: the disturbed assignment violates a gate or copy constraint (decided row by row and copy by copy on the assignment itself); others are discarded.")
        .assume("gate constraints evaluated on a row are the circuit's meaning (G01 to G03 check them against reference models)")
        .law("disturbed assignments are not accepted", 300, 8000, programs_l)
        .law("broken copies are not accepted", 300, 8000, copies_l)
        .run();
}
