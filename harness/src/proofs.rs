//! Random provable circuits with a satisfying assignment.
use crate::circ::*;
use crate::gen::*;
use crate::refs::*;
use crate::Src;
use plonky::*;

/// Whether a scalar, as an integer, is also an element of the base field.
pub fn fits<C: HaloCurve + CurveRef>(x: C::ScalarField) -> bool
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    big(x) < *p::<C::BaseField>()
}
pub struct Inst<C: HaloCurve> {
    pub c: Circuit<C>,
    pub w: Witness<C::ScalarField>,
    pub pis: Vec<C::ScalarField>,
}
#[derive(Clone, Copy)]
pub struct Size {
    pub steps: usize,
    pub publics: usize,
    /// Include the bigger gadgets.
    pub gadgets: bool,
    pub bits: usize,
}
pub const SMALL: Size = Size { steps: 6, publics: 4, gadgets: false, bits: 128 };

pub fn instance<C, I>(s: &mut Src, size: Size) -> Inst<C>
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let shape = Shape { steps: s.size(0, size.steps), publics: s.size(0, size.publics), virtuals: s.size(0, 4), logic: s.bool(), max_exp: 16 };
    let (ops, mut pis, vts) = program::<C::ScalarField>(s, shape);
    for x in pis.iter_mut() {
        if !fits::<C>(*x) {
            *x = C::ScalarField::from_canonical_u64(big(*x).to_u64_digits().get(0).cloned().unwrap_or(0));
        }
    }
    // the program may invert zero on the adjusted inputs; then it is cut short
    let mut ops = ops;
    let values = loop {
        match run(&ops, &pis, &vts) {
            Some(v) => break v,
            None => {
                ops.pop();
            }
        }
    };
    let mut pis: Vec<C::ScalarField> = ops.iter().zip(&values).filter(|(o, _)| matches!(o, Op::Public(_))).map(|(_, &v)| v).collect();
    let mut b = CircuitBuilder::<C>::new(size.bits);
    let t = emit(&mut b, &ops);
    let mut w = assign(&ops, &t, &pis, &vts);
    // assertions that hold
    let mut notes = vec![];
    for _ in 0..s.size(0, 3) {
        if t.is_empty() {
            break;
        }
        let (i, j) = (s.upto(t.len()), s.upto(t.len()));
        if values[i] == values[j] {
            b.copy(t[i], t[j]);
            notes.push(format!("copy {} {}", i, j));
        } else if values[i] != C::ScalarField::ZERO {
            b.assert_nonzero(t[i]);
            notes.push(format!("nonzero {}", i));
        }
    }
    // results made public
    for _ in 0..s.size(0, size.publics) {
        if t.is_empty() {
            break;
        }
        let i = s.upto(t.len());
        if fits::<C>(values[i]) {
            let pi = b.add_public_input();
            b.copy(pi, t[i]);
            pis.push(values[i]);
            notes.push(format!("public {}", i));
        }
    }
    if size.gadgets {
        for _ in 0..s.size(0, 2) {
            let mut x = |s: &mut Src, b: &mut CircuitBuilder<C>, w: &mut PartialWitness<C::ScalarField>| {
                if !t.is_empty() && s.bool() {
                    t[s.upto(t.len())]
                } else {
                    let v = b.add_virtual_target();
                    w.set_target(v, elem(s));
                    v
                }
            };
            match s.upto(6) {
                0 => {
                    let k = s.range(1, 3);
                    let v: Vec<_> = (0..k).map(|_| x(s, &mut b, &mut w)).collect();
                    let out = b.rescue_hash_n_to_1(&v);
                    b.assert_nonzero(out);
                    notes.push(format!("hash of {}", k));
                }
                1 => {
                    let p = b.add_virtual_point_target::<I>();
                    let q = b.add_virtual_point_target::<I>();
                    let k = s.range(1, 1000) as u32;
                    let g = I::GENERATOR_AFFINE;
                    let gg = aff::<I>(ref_mul::<I>(pt(&g), &num::BigUint::from(k + 1)));
                    w.set_point_target(p, g);
                    w.set_point_target(q, gg);
                    b.curve_assert_valid::<I>(p);
                    let r = b.curve_add::<I>(p, q);
                    let _ = b.curve_double::<I>(r);
                    notes.push(format!("G + {}G, doubled", k + 1));
                }
                2 => {
                    let max = (num::BigUint::from(1u32) << s.range(1, 200)) - 1u32;
                    let (p, q) = (b.add_virtual_bigint_target(&max, true), b.add_virtual_bigint_target(&max, s.bool()));
                    w.set_bigint_target(&p, &(&max / 3u32));
                    w.set_bigint_target(&q, &max);
                    let _ = b.bigint_add(&p, &q);
                    let _ = b.bigint_mul(&p, &q);
                    notes.push(format!("integers below {}", max));
                }
                3 => {
                    // the gadget is for even roots below 2^254
                    let mut v = elem::<C::ScalarField>(s);
                    let even = if big(v) % 2u32 == num::BigUint::from(0u32) { v } else { -v };
                    if big(even).bits() > 254 {
                        v = C::ScalarField::from_canonical_u64(2 * (big(-even).to_u64_digits().get(0).cloned().unwrap_or(0) >> 1));
                    }
                    let k = b.constant_wire(v.square());
                    let r = b.deterministic_square_root(k);
                    let _ = b.square(r);
                    notes.push(format!("root of {} squared", show(v)));
                }
                4 => {
                    let k = s.range(1, 12);
                    let v = b.add_virtual_targets(k);
                    let d: Vec<C::ScalarField> = (0..k).map(|_| C::ScalarField::from_canonical_u64(s.below(4))).collect();
                    w.set_targets(&v, &d);
                    b.assert_all_base_4(&v);
                    notes.push(format!("base 4 digits {}", shows(&d)));
                }
                _ => {
                    let p = b.constant_affine_point(I::GENERATOR_AFFINE);
                    let v = b.add_virtual_target();
                    w.set_target(v, C::ScalarField::from_canonical_u64(s.below(1 << 40) + 2));
                    let _ = b.curve_mul::<I>(CurveMulOp { scalar: v, point: p });
                    notes.push("scalar multiplication".into());
                }
            }
        }
    }
    // padding rows, so that sizes straddle powers of two
    for _ in 0..s.size(0, 12) {
        if s.chance(1, 3) {
            let gate = b.num_gates();
            b.add_gate_no_constants(BufferGate::new(gate));
        }
    }
    s.note(|| format!("{} gates: {:?} on public {} virtual {}; {:?}", b.num_gates(), ops, shows(&pis), shows(&vts), notes));
    let c = b.build();
    let w = c.generate_witness(w);
    Inst { c, w, pis }
}

/// An honest proof, made once per process.
pub struct Made<C: HaloCurve> {
    pub i: Inst<C>,
    pub old: Vec<OldProof<C>>,
    pub proof: Proof<C>,
    /// Without the precomputation for the generators.
    pub vk: VerificationKey<C>,
    /// The pending check of this very proof.
    pub pending: OldProof<C>,
}
/// The k-th honest proof of a fixed series; those with odd k accumulate up to three earlier ones.
pub fn made<C, I>(k: usize) -> &'static Made<C>
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    memo(format!("proof {} {}", C::CNAME, k), || {
        let mut s = Src::seeded(crate::splitmix(k as u64 ^ crate::hash_str(C::CNAME)));
        let i = instance::<C, I>(&mut s, Size { steps: 5, publics: 6, gadgets: false, bits: 128 });
        let mut old = vec![];
        if k % 2 == 1 {
            for _ in 0..s.range(1, 3) {
                let m = made::<C, I>(2 * s.upto(k / 2 + 1));
                if m.i.c.degree() <= i.c.degree() {
                    old.push(m.pending.clone());
                }
            }
        }
        s.seed_code_rng();
        let proof = i.c.generate_proof::<I>(&i.w, &old, k % 4 < 2).expect("honest proof");
        let mut vk = i.c.to_vk();
        vk.clear_msm_precomputation();
        let ch = proof.get_challenges(&i.pis, &old).expect("challenges");
        let pending = OldProof { halo_g: proof.halo_g, halo_us: ch.halo_us };
        Made { i, old, proof, vk, pending }
    })
}
/// The point lists of a proof.
pub fn points_mut<C: HaloCurve>(p: &mut Proof<C>) -> Vec<(&'static str, Vec<&mut AffinePoint<C>>)> {
    vec![
        ("c_wires", p.c_wires.iter_mut().collect()),
        ("c_plonk_z", vec![&mut p.c_plonk_z]),
        ("c_plonk_t", p.c_plonk_t.iter_mut().collect()),
        ("c_pis_quotient", vec![&mut p.c_pis_quotient]),
        ("halo_l", p.halo_l.iter_mut().collect()),
        ("halo_r", p.halo_r.iter_mut().collect()),
        ("halo_g", vec![&mut p.halo_g]),
        ("schnorr r", vec![&mut p.schnorr_proof.r]),
    ]
}
pub fn sets_mut<C: HaloCurve>(p: &mut Proof<C>) -> [&mut OpeningSet<C::ScalarField>; 3] {
    [&mut p.o_local, &mut p.o_right, &mut p.o_below]
}
/// The value lists of one set of openings.
pub fn opened_mut<F: Field>(o: &mut OpeningSet<F>) -> Vec<(&'static str, Vec<&mut F>)> {
    vec![
        ("o_constants", o.o_constants.iter_mut().collect()),
        ("o_plonk_sigmas", o.o_plonk_sigmas.iter_mut().collect()),
        ("o_wires", o.o_wires.iter_mut().collect()),
        ("o_plonk_z", vec![&mut o.o_plonk_z]),
        ("o_plonk_t", o.o_plonk_t.iter_mut().collect()),
        ("o_old_proofs", o.o_old_proofs.iter_mut().collect()),
        ("o_pi_quotient", vec![&mut o.o_pi_quotient]),
    ]
}
pub fn scalars_mut<C: HaloCurve>(p: &mut Proof<C>) -> Vec<(&'static str, Vec<&mut C::ScalarField>)> {
    let Proof { o_local, o_right, o_below, schnorr_proof, .. } = p;
    let mut v = opened_mut(o_local);
    v.extend(opened_mut(o_right));
    v.extend(opened_mut(o_below));
    v.push(("z1", vec![&mut schnorr_proof.z1]));
    v.push(("z2", vec![&mut schnorr_proof.z2]));
    v.retain(|l| !l.1.is_empty());
    v
}
/// Alter one or two components of a proof; all points stay on the curve and all lists keep their
/// lengths. `other` is another proof for the same curve.
pub fn alter<C>(s: &mut Src, p: &mut Proof<C>, other: &Proof<C>) -> String
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let mut other = other.clone();
    if s.bool() {
        let mut theirs = points_mut(&mut other);
        let pool: Vec<AffinePoint<C>> = points_mut(p).into_iter().map(|l| l.1).flatten().map(|x| *x).collect();
        let mut lists = points_mut(p);
        let k = s.upto(lists.len());
        let i = s.upto(lists[k].1.len());
        let name = lists[k].0;
        let old = *lists[k].1[i];
        let how = s.upto(8);
        let new = match how {
            0 => theirs[k].1.get(i).map(|x| **x).unwrap_or(pool[0]),
            1 => -old,
            2 => AffinePoint::<C>::ZERO,
            3 => aff::<C>(ref_add::<C>(pt(&old), pt(&C::GENERATOR_AFFINE))),
            4 => aff::<C>(ref_add::<C>(pt(&old), pt(&old))),
            5 => *s.pick(&pool),
            6 => aff::<C>(point::<C>(s)),
            _ => {
                // exchange with a neighbour
                let j = s.upto(lists[k].1.len());
                let t = *lists[k].1[j];
                *lists[k].1[j] = old;
                t
            }
        };
        *lists[k].1[i] = new;
        format!("{}[{}] altered ({})", name, i, how)
    } else {
        let pool: Vec<C::ScalarField> = scalars_mut(p).into_iter().map(|l| l.1).flatten().map(|x| *x).collect();
        let mut theirs = scalars_mut(&mut other);
        let mut lists = scalars_mut(p);
        let k = s.upto(lists.len());
        let i = s.upto(lists[k].1.len());
        let name = lists[k].0;
        let old = *lists[k].1[i];
        let how = s.upto(8);
        let new = match how {
            0 => theirs.get_mut(k).and_then(|l| l.1.get(i).map(|x| **x)).unwrap_or(pool[0]),
            1 => -old,
            2 => C::ScalarField::ZERO,
            3 => old + C::ScalarField::ONE,
            4 => elem(s),
            5 => *s.pick(&pool),
            6 => old + power2::<C::ScalarField>(s.upto(254)),
            _ => {
                let j = s.upto(lists[k].1.len());
                let t = *lists[k].1[j];
                *lists[k].1[j] = old;
                t
            }
        };
        *lists[k].1[i] = new;
        format!("{}[{}] of list {} altered ({})", name, i, k, how)
    }
}
fn power2<F: Field>(k: usize) -> F {
    (0..k).fold(F::ONE, |a, _| a + a)
}
/// Whether two proofs are equal.
pub fn same<C: HaloCurve>(p: &Proof<C>, q: &Proof<C>) -> bool {
    let (mut p, mut q) = (p.clone(), q.clone());
    let points = |p: &mut Proof<C>| -> Vec<Vec<AffinePoint<C>>> { points_mut(p).into_iter().map(|l| l.1.into_iter().map(|x| *x).collect()).collect() };
    let scalars = |p: &mut Proof<C>| -> Vec<Vec<C::ScalarField>> {
        let mut v: Vec<Vec<C::ScalarField>> = vec![];
        for o in sets_mut(p) {
            v.extend(opened_mut(o).into_iter().map(|l| l.1.into_iter().map(|x| *x).collect::<Vec<_>>()));
        }
        v.push(vec![p.schnorr_proof.z1, p.schnorr_proof.z2]);
        v
    };
    points(&mut p) == points(&mut q) && scalars(&mut p) == scalars(&mut q)
}
