//! Z02: a proof verifies only for its own public inputs and its own circuit.
use plonky::plonk_util::commit_polynomials;
use plonky::polynomial::Polynomial;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::prover::*;
use vh::refs::*;
use vh::*;

const SIZE: Size = Size { steps: 5, publics: 8, gadgets: false, bits: 128 };

fn key<C: HaloCurve>(c: &Circuit<C>) -> VerificationKey<C> {
    let mut vk = c.to_vk();
    vk.clear_msm_precomputation();
    vk
}
fn accepts<C, I>(vk: &VerificationKey<C>, pis: &[C::ScalarField], p: &Proof<C>) -> bool
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    matches!(catching(|| verify_proof::<C, I>(pis, p, &[], vk, false)), Ok(Ok(_)))
}
fn rows<F: Field>(w: &Witness<F>, n: usize) -> Vec<Vec<F>> {
    (0..n).map(|i| wire_row(w, i)).collect()
}
/// A list of public inputs other than the given one.
fn other<C>(s: &mut Src, pis: &[C::ScalarField]) -> Option<(String, Vec<C::ScalarField>)>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let mut v = pis.to_vec();
    let fit = |s: &mut Src| {
        let x = elem::<C::ScalarField>(s);
        if fits::<C>(x) { x } else { C::ScalarField::from_canonical_u64(s.u64()) }
    };
    let what = match s.upto(9) {
        0 if !v.is_empty() => {
            let i = s.upto(v.len());
            v[i] = fit(s);
            format!("entry {} replaced", i)
        }
        1 if !v.is_empty() => {
            let i = s.upto(v.len());
            v[i] = if s.bool() { v[i] + C::ScalarField::ONE } else { -v[i] };
            format!("entry {} off", i)
        }
        2 if v.len() > 1 => {
            let (i, j) = (s.upto(v.len()), s.upto(v.len()));
            v.swap(i, j);
            format!("entries {} and {} swapped", i, j)
        }
        3 if !v.is_empty() => {
            let i = s.upto(v.len());
            v.remove(i);
            format!("entry {} dropped", i)
        }
        4 => {
            v.push(C::ScalarField::ZERO);
            "zero appended".into()
        }
        5 => {
            let i = s.upto(v.len() + 1);
            let x = fit(s);
            v.insert(i, x);
            format!("entry inserted at {}", i)
        }
        6 => {
            let n = (v.len() / 9 + 1) * 9;
            let n = n + s.upto(2);
            v.resize(n, C::ScalarField::ZERO);
            format!("filled with zeros to {}", n)
        }
        7 => {
            let n = s.range(1, 4);
            let x = fit(s);
            v.extend(vec![x; n]);
            format!("{} entries appended", n)
        }
        _ => {
            v.clear();
            "all dropped".into()
        }
    };
    if v == pis || v.iter().any(|&x| !fits::<C>(x)) {
        None
    } else {
        Some((what, v))
    }
}
fn own<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, SIZE);
    let vk = key(&i.c);
    let proof = i.c.generate_proof::<I>(&i.w, &[], s.bool()).map_err(|e| e.to_string())?;
    let pis = i.c.get_public_inputs(&i.w);
    ensure!(accepts::<C, I>(&vk, &pis, &proof), "not accepted for the public inputs {} of its witness", shows(&pis));
    for _ in 0..4 {
        if let Some((what, v)) = other::<C>(s, &pis) {
            if !pis.is_empty() {
                s.nontrivial();
            }
            ensure!(!accepts::<C, I>(&vk, &v, &proof), "accepted for {} instead of {} ({})", shows(&v), shows(&pis), what);
        }
    }
    Ok(())
}
/// A proof made for claimed inputs its wires do not carry.
fn claimed<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, SIZE);
    let (what, v) = match other::<C>(s, &i.pis) {
        Some(x) => x,
        None => {
            s.discarded = true;
            return Ok(());
        }
    };
    if !i.pis.is_empty() {
        s.nontrivial();
    }
    s.class(if v.len() == i.pis.len() { "same number" } else { "another number" });
    let r = rows(&i.w, i.c.degree());
    let (p, pis) = prove::<C, I>(&i.c, &r, &[], &Plan { claim: Some(v), ..Plan::default() })?;
    ensure!(!accepts::<C, I>(&key(&i.c), &pis, &p), "accepted for {} although the wires carry {} ({})", shows(&pis), shows(&i.pis), what);
    Ok(())
}
/// Claimed inputs chosen when the challenge that combines them is known.
fn late<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, SIZE);
    if i.pis.len() < 2 {
        s.discarded = true;
        return Ok(());
    }
    s.nontrivial();
    let r = rows(&i.w, i.c.degree());
    let k = s.upto((i.pis.len() - 1).min(8));
    let d = nonzero::<C::ScalarField>(s);
    // the same combination by powers of alpha
    let late = |alpha: C::ScalarField, v: &[C::ScalarField]| {
        let mut v = v.to_vec();
        v[k] = v[k] + alpha * d;
        v[k + 1] = v[k + 1] - d;
        v
    };
    let (p, pis) = match prove::<C, I>(&i.c, &r, &[], &Plan { late: Some(&late), ..Plan::default() }) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    ensure!(!accepts::<C, I>(&key(&i.c), &pis, &p), "accepted for {} although the wires carry {}", shows(&pis), shows(&i.pis));
    Ok(())
}
/// A public output other than the computed one, with openings moved to the wrong polynomials.
fn shifted<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, SIZE);
    let mut r = rows(&i.w, i.c.degree());
    let mut bad = vec![];
    for k in 0..i.pis.len() {
        if k % 9 < ROUTED {
            let (row, input) = (i.c.num_gates_without_pis + 2 * (k / 9), k % 9);
            let was = r[row][input];
            r[row][input] = was + C::ScalarField::ONE;
            if fits::<C>(r[row][input]) && copy_violation(&i.c, &Witness::new(r.clone())).is_some() {
                bad.push(k);
            }
            r[row][input] = was;
        }
    }
    if bad.is_empty() {
        s.discarded = true;
        return Ok(());
    }
    s.nontrivial();
    let k = bad[s.upto(bad.len())];
    let row = &mut r[i.c.num_gates_without_pis + 2 * (k / 9)];
    row[k % 9] = row[k % 9] + C::ScalarField::ONE;
    let (p, pis) = match prove::<C, I>(&i.c, &r, &[], &Plan { shift: true, ..Plan::default() }) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    ensure!(!accepts::<C, I>(&key(&i.c), &pis, &p), "accepted for {} although the circuit computes {}", shows(&pis), shows(&i.pis));
    Ok(())
}
/// Public inputs that the circuit determines: no proof for others, whichever of the wires that carry
/// an input are made to carry the false value.
fn determined<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = s.size(1, 22);
    let small = |s: &mut Src| C::ScalarField::from_canonical_u64(s.below(1 << 20));
    let mut b = CircuitBuilder::<C>::new(128);
    let t = b.add_public_inputs(n);
    let mut v: Vec<C::ScalarField> = vec![];
    let mut fixed = vec![];
    for k in 0..n {
        let j = if k > 0 { s.upto(k) } else { 0 };
        let i = if k > 0 { s.upto(k) } else { 0 };
        match s.upto(6) {
            0 => {
                let c = small(s);
                let w = b.constant_wire(c);
                b.copy(t[k], w);
                v.push(c);
            }
            1 if k > 0 => {
                let w = b.add(t[i], t[j]);
                b.copy(w, t[k]);
                v.push(v[i] + v[j]);
            }
            2 if k > 0 => {
                let w = b.mul(t[i], t[j]);
                b.copy(t[k], w);
                v.push(v[i] * v[j]);
            }
            3 if k > 0 => {
                b.copy(t[k], t[j]);
                v.push(v[j]);
            }
            4 => {
                // the square of the input is asserted
                let c = small(s);
                let w = b.square(t[k]);
                let d = b.constant_wire(c * c);
                b.copy(w, d);
                v.push(c);
            }
            _ => {
                v.push(small(s));
                continue;
            }
        }
        fixed.push(k);
    }
    if fixed.is_empty() || v.iter().any(|&x| !fits::<C>(x)) {
        s.discarded = true;
        return Ok(());
    }
    let c = b.build();
    let mut w = PartialWitness::new();
    for (t, x) in t.iter().zip(&v) {
        w.set_target(*t, *x);
    }
    let honest = rows(&c.generate_witness(w), c.degree());
    let vk = key(&c);
    let k = fixed[s.upto(fixed.len())];
    let lie = match s.upto(3) {
        0 => v[k] + C::ScalarField::ONE,
        1 => C::ScalarField::ZERO,
        _ => small(s),
    };
    if lie == v[k] || lie == -v[k] || !fits::<C>(lie) {
        s.discarded = true;
        return Ok(());
    }
    s.nontrivial();
    s.class(if k % WIRES < ROUTED { "routed wire" } else { "other wire" });
    // one proof for what holds, to know that the lie is what the others fail for
    if s.chance(1, 6) {
        let (p, pis) = prove::<C, I>(&c, &honest, &[], &Plan::default())?;
        ensure!(pis == v, "the wires carry {} instead of {}", shows(&pis), shows(&v));
        ensure!(accepts::<C, I>(&vk, &pis, &p), "true public inputs {} are not accepted", shows(&v));
    }
    for strategy in 0..3 {
        let mut r = honest.clone();
        let row = c.num_gates_without_pis + 2 * (k / WIRES);
        let mut cells = vec![(row, k % WIRES)];
        if strategy == 1 {
            if k % WIRES < ROUTED {
                cells.push((row + 1, k % WIRES));
            } else {
                cells.push((row + 1, k % WIRES - ROUTED));
            }
        }
        if strategy == 2 {
            // every wire the input is copied to
            for x in c.routing_target_partitions.get_partition(t[k]) {
                if let Target::Wire(w) = x {
                    cells.push((w.gate, w.input));
                }
            }
        }
        for (i, j) in cells {
            r[i][j] = lie;
        }
        let (p, pis) = match prove::<C, I>(&c, &r, &[], &Plan::default()) {
            Ok(x) => x,
            Err(_) => continue,
        };
        if pis[k] != lie || (0..n).any(|i| i != k && pis[i] != v[i]) {
            // inputs copied from one another move together
            continue;
        }
        ensure!(!accepts::<C, I>(&vk, &pis, &p), "accepted for {} with entry {} false, the circuit asks for {} (wires changed: {})", shows(&pis), k, show(v[k]), ["the gate's own", "the gate's and the next row's", "all that it is copied to"][strategy]);
    }
    Ok(())
}
/// The verification key of a circuit that differs in one constant, in one copy, in its layout, its
/// size, or altogether.
fn circuit<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, SIZE);
    let proof = i.c.generate_proof::<I>(&i.w, &[], s.bool()).map_err(|e| e.to_string())?;
    let n = i.c.degree();
    let one = |v: Vec<C::ScalarField>| commit_polynomials(&[Polynomial::from_evaluations(&v, &i.c.fft_precomputation_n)], &i.c.pedersen_g_msm_precomputation, i.c.pedersen_h, false)[0].to_affine();
    for _ in 0..3 {
        let mut vk = key(&i.c);
        let what = match s.upto(7) {
            0 => {
                let (j, k) = (s.upto(CONSTANTS), s.upto(n));
                let mut column: Vec<C::ScalarField> = i.c.gate_constants.iter().map(|r| r[j]).collect();
                ensure!(one(column.clone()) == vk.c_constants[j], "the key's constants are not the circuit's");
                column[k] = column[k] + C::ScalarField::ONE;
                vk.c_constants[j] = one(column);
                format!("constant {} of gate {}", j, k)
            }
            1 => {
                let (a, b) = ((s.upto(ROUTED), s.upto(n)), (s.upto(ROUTED), s.upto(n)));
                let mut columns: Vec<Vec<C::ScalarField>> = i.c.s_sigma_values_8n.iter().map(|v| v.iter().step_by(8).cloned().collect()).collect();
                ensure!(one(columns[a.0].clone()) == vk.c_s_sigmas[a.0], "the key's permutation is not the circuit's");
                let (x, y) = (columns[a.0][a.1], columns[b.0][b.1]);
                columns[a.0][a.1] = y;
                columns[b.0][b.1] = x;
                vk.c_s_sigmas[a.0] = one(columns[a.0].clone());
                vk.c_s_sigmas[b.0] = one(columns[b.0].clone());
                format!("copies of wires {:?} and {:?}", a, b)
            }
            2 if !i.pis.is_empty() => {
                vk.num_gates_without_pis = if s.bool() { vk.num_gates_without_pis + s.range(1, 3) } else { vk.num_gates_without_pis - s.range(1, vk.num_gates_without_pis.min(3)) };
                if vk.num_gates_without_pis + 2 * ((vk.num_public_inputs + 8) / 9) > n {
                    continue;
                }
                "place of the public inputs".into()
            }
            3 => {
                // the layout of one more, one less
                vk.num_public_inputs = if s.bool() || i.pis.is_empty() { vk.num_public_inputs + 1 } else { vk.num_public_inputs - 1 };
                "number of public inputs".into()
            }
            4 => {
                vk.clear_all();
                vk.degree = if s.bool() || n <= 4 { n * 2 } else { n / 2 };
                "size".into()
            }
            5 => {
                let (a, b) = (s.upto(CONSTANTS), s.upto(ROUTED));
                let t = vk.c_constants[a];
                vk.c_constants[a] = vk.c_s_sigmas[b];
                vk.c_s_sigmas[b] = t;
                "constants and copies".into()
            }
            _ => {
                let o = instance::<C, I>(s, SIZE);
                vk = key(&o.c);
                "everything".into()
            }
        };
        if vk.c_constants == i.c.to_vk().c_constants && vk.c_s_sigmas == i.c.to_vk().c_s_sigmas && (vk.degree, vk.num_public_inputs, vk.num_gates_without_pis) == (n, i.pis.len(), i.c.num_gates_without_pis) {
            continue;
        }
        s.nontrivial();
        ensure!(!accepts::<C, I>(&vk, &i.pis, &proof), "accepted for a circuit with another {}", what);
        let mut v = i.pis.clone();
        v.resize(vk.num_public_inputs, C::ScalarField::ZERO);
        ensure!(!accepts::<C, I>(&vk, &v, &proof), "accepted for {} and a circuit with another {}", shows(&v), what);
    }
    Ok(())
}
fn own_l(s: &mut Src) -> Res {
    each_pair!(s, own)
}
fn claimed_l(s: &mut Src) -> Res {
    each_pair!(s, claimed)
}
fn late_l(s: &mut Src) -> Res {
    each_pair!(s, late)
}
fn shifted_l(s: &mut Src) -> Res {
    each_pair!(s, shifted)
}
fn determined_l(s: &mut Src) -> Res {
    each_pair!(s, determined)
}
fn circuit_l(s: &mut Src) -> Res {
    each_pair!(s, circuit)
}
fn main() {
    Suite::new("Z02", "Random circuits (4 to 64 rows, up to 16 public inputs) on all curve pairs. Honest proofs against altered lists of public inputs (entries replaced, negated, swapped, dropped, inserted, appended, zero-filled) and against keys of circuits that differ in one constant, one copy, the place or number of public inputs, the size or everything; an adversarial prover that claims inputs its wires do not carry, also of another number, also chosen after the combining challenge, one that misaligns the openings to replace the permutation, and one that states false values for inputs the circuit determines (equal to constants, to functions of other inputs) and carries them through some of the wires. Non-trivial: the circuit has public inputs and the list or key really differs.")
        .assume("verification with the folded-generator check deferred is used (accepting less often completely)")
        .law("altered public inputs are rejected", 180, 3000, own_l)
        .law("claims the wires do not carry are rejected", 180, 3000, claimed_l)
        .law("claims chosen after the challenges are rejected", 60, 800, late_l)
        .law("permutations replaced by misaligned openings are rejected", 120, 1500, shifted_l)
        .law("public inputs the circuit determines have no other proof", 120, 2000, determined_l)
        .law("proofs of other circuits are rejected", 180, 3000, circuit_l)
        .run();
}
