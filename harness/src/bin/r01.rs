//! R01: the recursive verification circuit takes in, publishes and checks the inner proof's data.
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::sigma_polynomials;
use plonky::*;
use std::collections::{HashMap, HashSet};
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Inner degree, public inputs of the inner circuit, pending checks.
type Dims = (usize, usize, usize);
const CONSTANTS: usize = 6;
const ROUTED: usize = 6;
const WIRES: usize = 9;
const T: usize = 7;

/// A recursion circuit with its copy classes and the order its generators can run in.
struct Built<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>> {
    r: RecursiveCircuit<C, I>,
    sys: System<C>,
    class_of: HashMap<Target<C::ScalarField>, usize>,
    /// Per generator: the classes it depends on.
    deps: Vec<Vec<usize>>,
    users: Vec<Vec<usize>>,
    publics: Vec<usize>,
}
fn point_targets<C: Curve>(p: &AffinePointTarget<C>) -> Vec<Target<C::BaseField>> {
    vec![p.x, p.y]
}
fn set_targets<C: Curve>(o: &OpeningSetTarget<C>) -> Vec<Target<C::ScalarField>> {
    [&o.o_constants[..], &o.o_plonk_sigmas, &o.o_wires, &[o.o_plonk_z], &o.o_plonk_t, &o.o_old_proofs].concat()
}
/// All targets of the proof in the order of `proof_values`.
fn proof_targets<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>>(p: &ProofTarget<C, I>) -> Vec<Target<C::ScalarField>> {
    let points = [&p.c_wires[..], &[p.c_plonk_z], &p.c_plonk_t, &p.halo_l_i, &p.halo_r_i, &[p.halo_g, p.schnorr_proof.r]].concat();
    let mut t: Vec<Target<C::ScalarField>> = points.iter().flat_map(point_targets).collect();
    for o in &[&p.o_local, &p.o_right, &p.o_below] {
        t.extend(set_targets(o));
    }
    t.push(p.schnorr_proof.z1.convert());
    t.push(p.schnorr_proof.z2.convert());
    t
}
fn carry<I: HaloCurve>(x: I::ScalarField) -> Option<I::BaseField> {
    x.try_convert::<I::BaseField>().ok()
}
fn proof_values<I: HaloCurve>(p: &Proof<I>) -> Option<Vec<I::BaseField>> {
    let points = [&p.c_wires[..], &[p.c_plonk_z], &p.c_plonk_t, &p.halo_l, &p.halo_r, &[p.halo_g, p.schnorr_proof.r]].concat();
    let mut v: Vec<I::BaseField> = points.iter().flat_map(|q| vec![q.x, q.y]).collect();
    for o in &[&p.o_local, &p.o_right, &p.o_below] {
        for x in [&o.o_constants[..], &o.o_plonk_sigmas, &o.o_wires, &[o.o_plonk_z], &o.o_plonk_t, &o.o_old_proofs].concat() {
            v.push(carry::<I>(x)?);
        }
    }
    v.push(carry::<I>(p.schnorr_proof.z1)?);
    v.push(carry::<I>(p.schnorr_proof.z2)?);
    Some(v)
}

fn built<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(d: Dims) -> &'static Built<C, I> {
    memo(format!("recursion {} {:?}", C::CNAME, d), || {
        let r = recursive_verification_circuit::<C, I>(d.0, 128, d.1, d.2);
        let c = &r.circuit;
        let publics: Vec<Target<C::ScalarField>> = (0..c.num_public_inputs).map(|i| Target::PublicInput(PublicInput::new(i))).collect();
        let mut all = proof_targets(&r.proof);
        all.extend(publics.iter().copied());
        for o in r.proof.o_public_inputs.iter().flatten() {
            all.extend(set_targets(o));
        }
        for o in &r.old_proofs {
            all.extend(point_targets(&o.halo_g));
            all.extend(o.halo_us.iter().map(|t| t.convert::<C::ScalarField>()));
        }
        let sys = System::of::<I>(c, &all);
        let mut class_of = HashMap::new();
        let mut classes = 0;
        let mut class = |t: Target<C::ScalarField>| -> usize {
            if let Some(&k) = class_of.get(&t) {
                return k;
            }
            // the classes of the constraint system come first
            let k = match sys.class(t) {
                Some(k) => k,
                None => {
                    classes += 1;
                    sys.classes + classes - 1
                }
            };
            for &m in c.routing_target_partitions.get_partition(t) {
                class_of.insert(m, k);
            }
            class_of.insert(t, k);
            k
        };
        for gate in 0..c.degree() {
            for input in 0..WIRES {
                class(Target::Wire(Wire { gate, input }));
            }
        }
        let deps: Vec<Vec<usize>> = c.generators.iter().map(|g| g.dependencies().into_iter().map(&mut class).collect()).collect();
        for &t in &all {
            class(t);
        }
        let publics = publics.into_iter().map(&mut class).collect();
        let mut users = vec![vec![]; sys.classes + classes];
        for (i, d) in deps.iter().enumerate() {
            d.iter().for_each(|&k| users[k].push(i));
        }
        Built { r, sys, class_of, deps, users, publics }
    })
}
impl<C: HaloCurve, I: HaloCurve + Curve<BaseField = C::ScalarField>> Built<C, I> {
    /// The values the generators derive from the given ones; the first value of a class stays.
    fn derive(&self, given: &[(Target<C::ScalarField>, C::ScalarField)]) -> Vec<Option<C::ScalarField>> {
        let c = &self.r.circuit;
        let mut v: Vec<Option<C::ScalarField>> = vec![None; self.users.len()];
        let mut missing: Vec<usize> = self.deps.iter().map(|d| d.iter().collect::<HashSet<_>>().len()).collect();
        let mut ready: Vec<usize> = (0..missing.len()).filter(|&i| missing[i] == 0).collect();
        let mut fresh: Vec<(usize, C::ScalarField)> = given.iter().map(|&(t, x)| (self.class_of[&t], x)).collect();
        loop {
            for (k, x) in fresh.drain(..) {
                if v[k].is_none() {
                    v[k] = Some(x);
                    let mut last = usize::MAX;
                    for &i in &self.users[k] {
                        if i != last {
                            missing[i] -= 1;
                            if missing[i] == 0 {
                                ready.push(i);
                            }
                        }
                        last = i;
                    }
                }
            }
            let i = match ready.pop() {
                Some(i) => i,
                None => return v,
            };
            let g = &c.generators[i];
            let mut w = PartialWitness::new();
            for (t, &k) in g.dependencies().into_iter().zip(&self.deps[i]) {
                w.set_target(t, v[k].unwrap());
            }
            if let Ok(out) = catching(|| g.generate(&c.gate_constants, &w)) {
                for t in out.all_populated_targets() {
                    fresh.push((self.class_of[&t], out.get_target(t)));
                }
            }
        }
    }
    /// The value linear constraints around a class force upon it.
    fn forced(&self, v: &[Option<C::ScalarField>], k: usize) -> Option<C::ScalarField> {
        let mut v = v[..self.sys.classes].to_vec();
        let mut seen: HashSet<usize> = vec![k].into_iter().collect();
        let mut front = vec![k];
        let mut eqs = vec![];
        for _ in 0..=T {
            let mut next = vec![];
            for e in front.into_iter().flat_map(|j| self.sys.eqs_of(j)) {
                eqs.push(e);
                next.extend(self.sys.classes_of(e).iter().copied().filter(|&j| v[j].is_none() && seen.insert(j)));
            }
            front = next;
        }
        eqs.sort_unstable();
        eqs.dedup();
        self.sys.propagate(&mut v, eqs);
        v[k]
    }
}

fn finite<C: CurveRef>(s: &mut Src) -> AffinePoint<C>
where
    C::ScalarField: FieldRef,
{
    let q = point::<C>(s);
    affine(if q.is_none() { pt(&C::GENERATOR_AFFINE) } else { q })
}
fn finites<C: CurveRef>(s: &mut Src, n: usize) -> Vec<AffinePoint<C>>
where
    C::ScalarField: FieldRef,
{
    (0..n).map(|_| finite(s)).collect()
}
/// A field element that fits in the other field.
fn fitting<F: FieldRef, B: FieldRef>(s: &mut Src) -> F {
    let x = if s.chance(1, 3) { elem::<F>(s) } else { uniform::<F>(s) };
    if big(x) < *p::<B>() {
        x
    } else {
        F::TWO
    }
}
fn opened<F: FieldRef, B: FieldRef>(s: &mut Src, old: usize) -> OpeningSet<F> {
    let mut some = |n: usize| -> Vec<F> { (0..n).map(|_| fitting::<F, B>(s)).collect() };
    OpeningSet {
        o_constants: some(CONSTANTS),
        o_plonk_sigmas: some(ROUTED),
        o_wires: some(WIRES),
        o_plonk_z: some(1)[0],
        o_plonk_t: some(T),
        o_old_proofs: some(old),
        o_pi_quotient: some(1)[0],
    }
}
const DIMS: [Dims; 6] = [(1, 54, 0), (2, 60, 1), (0, 46, 2), (0, 53, 0), (3, 90, 1), (1, 72, 3)];

fn recursion<C, I>(s: &mut Src, sizes: &[Dims]) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    let d = *s.pick(sizes);
    let (pow, pis, old) = d;
    let b = built::<C, I>(d);
    let r = &b.r;
    let gates = (pis + WIRES - 1) / WIRES;
    let base = 4 + CONSTANTS + ROUTED + 3 * WIRES + 2;
    let openings = r.proof.o_public_inputs.as_ref().unwrap();
    ensure!(
        r.circuit.num_public_inputs == base + T + pow + (2 + pow) * old && openings.len() == gates && r.proof.halo_l_i.len() == pow && r.proof.halo_r_i.len() == pow && r.old_proofs.len() == old,
        "the circuit for {:?} has {} public inputs, {} openings of public inputs, {} + {} rounds, {} old proofs",
        d,
        r.circuit.num_public_inputs,
        openings.len(),
        r.proof.halo_l_i.len(),
        r.proof.halo_r_i.len(),
        r.old_proofs.len()
    );

    // The proof and its old proofs are taken in as they are.
    let mut proof = Proof::<I> {
        c_wires: finites(s, WIRES),
        c_plonk_z: finite(s),
        c_plonk_t: finites(s, T),
        c_pis_quotient: finite(s),
        o_local: opened::<_, C::ScalarField>(s, old),
        o_right: opened::<_, C::ScalarField>(s, old),
        o_below: opened::<_, C::ScalarField>(s, old),
        halo_l: finites(s, pow),
        halo_r: finites(s, pow),
        halo_g: finite(s),
        schnorr_proof: SchnorrProof { r: finite(s), z1: fitting::<_, C::ScalarField>(s), z2: fitting::<_, C::ScalarField>(s) },
    };
    if s.chance(1, 5) {
        let x = elem::<I::ScalarField>(s);
        match s.upto(8) {
            0 => proof.o_local.o_constants[s.upto(CONSTANTS)] = x,
            1 => proof.o_right.o_plonk_sigmas[s.upto(ROUTED)] = x,
            2 => proof.o_below.o_wires[s.upto(WIRES)] = x,
            3 => proof.o_local.o_plonk_z = x,
            4 => proof.o_right.o_plonk_t[s.upto(T)] = x,
            5 => proof.schnorr_proof.z1 = x,
            6 => proof.schnorr_proof.z2 = x,
            _ => proof.o_below.o_plonk_z = x,
        }
    }
    let olds: Vec<OldProof<I>> = (0..old)
        .map(|_| OldProof {
            halo_g: finite(s),
            halo_us: (0..pow)
                .map(|_| {
                    let x = fitting::<I::ScalarField, C::ScalarField>(s);
                    if x == I::ScalarField::ZERO {
                        I::ScalarField::TWO
                    } else {
                        x
                    }
                })
                .collect(),
        })
        .collect();
    let (targets, values) = (proof_targets(&r.proof), proof_values(&proof));
    let mut w = PartialWitness::new();
    let taken = catching(|| r.proof.populate_witness(&mut w, proof.clone())).map_err(|e| format!("populate_witness panicked: {}", e))?;
    s.note(|| format!("{} {:?}, values fit: {}", C::CNAME, d, values.is_some()));
    let values = match (taken, values) {
        (Err(_), None) => return Ok(()),
        (Ok(()), Some(values)) => values,
        (taken, values) => return Err(format!("populate_witness: {:?}; the values fit: {}", taken, values.is_some())),
    };
    for (o, x) in r.old_proofs.iter().zip(&olds) {
        o.populate_witness(&mut w, x).map_err(|e| format!("old proof: {}", e))?;
    }
    let mut expected: Vec<(Target<C::ScalarField>, C::ScalarField)> = targets.into_iter().zip(values).collect();
    let us: Vec<Vec<C::ScalarField>> = olds.iter().map(|x| x.halo_us.iter().map(|&u| carry::<I>(u).unwrap()).collect()).collect();
    for ((o, x), us) in r.old_proofs.iter().zip(&olds).zip(&us) {
        expected.push((o.halo_g.x, x.halo_g.x));
        expected.push((o.halo_g.y, x.halo_g.y));
        expected.extend(o.halo_us.iter().map(|t| t.convert()).zip(us.iter().copied()));
    }
    let set: HashSet<Target<C::ScalarField>> = w.all_populated_targets().into_iter().collect();
    ensure!(set.len() == expected.len(), "{} targets of the proof are set, not {}", set.len(), expected.len());
    for (i, &(t, x)) in expected.iter().enumerate() {
        ensure!(set.contains(&t) && w.get_target(t) == x, "value {} of the proof is not taken in as {}", i, show(x));
    }

    // What the proof before left to be checked, one part of its quotient missing.
    let carried: Vec<Target<C::ScalarField>> = openings.iter().flat_map(|o| o.o_wires.clone()).collect();
    let mut assumed: Vec<C::ScalarField> = (0..gates * WIRES).map(|_| if s.chance(1, 3) { elem(s) } else { uniform(s) }).collect();
    assumed[3] = uniform(s);
    let unset = s.upto(T);
    let opened_olds = &r.proof.o_local.o_old_proofs;
    let mut given: Vec<(Target<C::ScalarField>, C::ScalarField)> = expected.iter().copied().filter(|(t, _)| !opened_olds.contains(t)).collect();
    given.extend(carried.iter().copied().zip(assumed.iter().copied()).enumerate().filter(|&(i, _)| i != base + unset).map(|(_, g)| g));
    let v = b.derive(&given);
    s.nontrivial();

    // The challenges, and the data published for the next proof.
    let mut ch = Challenger::<C::ScalarField>::new(128);
    ch.observe_affine_points(&proof.c_wires);
    let (beta, gamma) = ch.get_2_challenges();
    ch.observe_affine_point(proof.c_plonk_z);
    let alpha = ch.get_challenge();
    ch.observe_affine_points(&proof.c_plonk_t);
    let zeta = ch.get_challenge();
    let fit = |x: &[I::ScalarField]| -> Vec<C::ScalarField> { x.iter().map(|&x| carry::<I>(x).unwrap()).collect() };
    let (l, r_, o) = (&proof.o_local, &proof.o_right, &proof.o_below);
    let published = [
        vec![beta, gamma, alpha, zeta],
        fit(&l.o_constants),
        fit(&l.o_plonk_sigmas),
        fit(&l.o_wires),
        fit(&r_.o_wires),
        fit(&o.o_wires),
        fit(&[l.o_plonk_z, r_.o_plonk_z]),
        fit(&l.o_plonk_t),
    ]
    .concat();
    for (i, &x) in published.iter().enumerate() {
        let got = v[b.publics[i]];
        ensure!(got == Some(x), "public input {} is {:?}, not {}", i, got.map(show), show(x));
    }
    let left: Vec<C::ScalarField> = olds.iter().zip(&us).flat_map(|(x, us)| [vec![x.halo_g.x, x.halo_g.y], us.clone()].concat()).collect();
    for (i, &x) in left.iter().enumerate() {
        let got = v[b.publics[base + T + pow + i]];
        ensure!(got == Some(x), "public input {} (old proofs) is {:?}, not {}", base + T + pow + i, got.map(show), show(x));
    }
    // The old proofs' polynomials are opened at zeta.
    for (i, us) in us.iter().enumerate() {
        let n = us.len();
        let x = us.iter().enumerate().fold(C::ScalarField::ONE, |acc, (j, &u)| acc * (u * zeta.exp_usize(1 << (n - 1 - j)) + u.multiplicative_inverse().unwrap()));
        let got = v[b.class_of[&opened_olds[i]]];
        ensure!(got == Some(x), "the opening of old proof {} is {:?}, not {}", i, got.map(show), show(x));
    }

    // The pending identity: what is missing is forced by what is there.
    let (beta, gamma, alpha, zeta) = (assumed[0], assumed[1], assumed[2], assumed[3]);
    let part = |at: usize, n: usize| &assumed[at..at + n];
    let (constants, sigmas) = (part(4, CONSTANTS), part(4 + CONSTANTS, ROUTED));
    let at = 4 + CONSTANTS + ROUTED;
    let (local, right, below) = (part(at, WIRES), part(at + WIRES, WIRES), part(at + 2 * WIRES, WIRES));
    let (z, z_right) = (assumed[base - 2], assumed[base - 1]);
    let one = C::ScalarField::ONE;
    let zeta_n = zeta.exp_usize(1 << pow);
    let shifts = sigma_polynomials::<C::ScalarField>((0..ROUTED).collect(), 1, one);
    let (mut f, mut g) = (z, z_right);
    for j in 0..ROUTED {
        f = f * (local[j] + beta * shifts[j][0] * zeta + gamma);
        g = g * (local[j] + beta * sigmas[j] + gamma);
    }
    let first = (zeta_n - one) * (C::ScalarField::from_canonical_usize(1 << pow) * (zeta - one)).multiplicative_inverse().unwrap();
    let mut terms = vec![(z - one) * first, f - g];
    terms.extend(evaluate_all_constraints::<C, I>(constants, local, right, below));
    let horner = |v: &[C::ScalarField], x: C::ScalarField| v.iter().rev().fold(C::ScalarField::ZERO, |acc, &c| acc * x + c);
    let quotient = horner(&terms, alpha) * (zeta_n - one).multiplicative_inverse().unwrap();
    let mut parts = part(base, T).to_vec();
    parts[unset] = C::ScalarField::ZERO;
    let missing = (quotient - horner(&parts, zeta_n)) * zeta_n.exp_usize(unset).multiplicative_inverse().unwrap();
    let got = b.forced(&v, b.class_of[&carried[base + unset]]);
    ensure!(got == Some(missing), "the pending identity forces part {} of the quotient to be {:?}, not {}", unset, got.map(show), show(missing));
    Ok(())
}
fn two_sizes<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    recursion::<C, I>(s, &DIMS[..2])
}
fn other_sizes<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    I::ScalarField: FieldRef,
{
    recursion::<C, I>(s, &DIMS[2..])
}
fn two_sizes_l(s: &mut Src) -> Res {
    each_pair!(s, two_sizes)
}
fn other_sizes_l(s: &mut Src) -> Res {
    each_pair!(s, other_sizes)
}

fn main() {
    Suite::new("R01", "Recursion circuits for two inner sizes per curve pair (six at the thorough tier), populated with proofs of random points and boundary field values and with random data left by the proof before. Non-trivial: all values fit both fields, so that the circuit takes them in.")
        .law("the inner proof's data is taken in, published and checked", 100, 600, two_sizes_l)
        .law("the inner proof's data, other sizes", 0, 900, other_sizes_l)
        .run();
}
