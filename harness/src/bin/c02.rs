//! C02: scalar multiplication is repeated addition.
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Scalars with structure in the 4-bit windows the implementation may use, besides boundary residues.
fn scalar<C: CurveRef>(s: &mut Src) -> BigUint
where
    C::ScalarField: FieldRef,
{
    let i = info::<C::ScalarField>();
    match s.weighted(&[3, 1, 1, 1, 1]) {
        0 => residue(s, i),
        1 => {
            // the same nibble everywhere
            let d = s.below(16);
            let v: Vec<u64> = (0..i.limbs).map(|_| d * 0x1111_1111_1111_1111).collect();
            limbs_to_big(&v) % &i.p
        }
        2 => {
            // few nonzero nibbles, high ones included
            let mut v = BigUint::zero();
            for _ in 0..s.range(1, 3) {
                v += BigUint::from(1 + s.below(15)) << (4 * s.below((i.p.bits() + 3) / 4)) as usize;
            }
            v % &i.p
        }
        3 => BigUint::from(s.below(40)),
        _ => &i.p - 1u32 - BigUint::from(s.below(40)),
    }
}
fn is<C: CurveRef>(what: &str, k: &BigUint, got: ProjectivePoint<C>, want: &Pt<C>) -> Res {
    let g = pt_proj(&got).map_err(|e| format!("{} {} by {}: {}", C::CNAME, what, k, e))?;
    ensure!(g == *want, "{} {} by {} is wrong", C::CNAME, what, k);
    Ok(())
}

fn mul<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let q = any_point::<C>(s);
    let pp = proj::<C>(s, q);
    let k = scalar::<C>(s);
    let l = scalar::<C>(s);
    s.note(|| format!("{} {:?} k={} l={}", C::CNAME, q.map(|(x, y)| (show(x), show(y))), k, l));
    if q.is_some() && k > BigUint::one() {
        s.nontrivial();
    }
    let (kf, lf) = (fe::<C::ScalarField>(&k), fe::<C::ScalarField>(&l));
    is("multiplication", &k, C::convert(kf) * pp, &ref_mul::<C>(q, &k))?;
    // one precomputation serves many scalars
    let pre = pp.mul_precompute();
    is("precomputed multiplication", &k, pp.mul_with_precomputation(kf, pre.clone()), &ref_mul::<C>(q, &k))?;
    is("precomputed multiplication (second use)", &l, pp.mul_with_precomputation(lf, pre), &ref_mul::<C>(q, &l))?;
    Ok(())
}

/// Multiples of points with known discrete logarithm: cheap oracle, many coincidences.
fn logs<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let r = p::<C::ScalarField>();
    let (d, q) = point_log::<C>(s);
    let pp = proj::<C>(s, q);
    let (k, l) = (scalar::<C>(s), scalar::<C>(s));
    let m = (&k + &l) % r;
    s.note(|| format!("{} [{}]G times {} and {}", C::CNAME, d, k, l));
    if q.is_some() && k > BigUint::one() {
        s.nontrivial();
    }
    let f = |x: &BigUint| fe::<C::ScalarField>(x);
    let g = C::GENERATOR_PROJECTIVE;
    let (a, b, c) = (C::convert(f(&k)) * pp, C::convert(f(&l)) * pp, C::convert(f(&m)) * pp);
    ensure!(a + b == c, "{} [k]P + [l]P != [k+l]P for k={} l={}", C::CNAME, k, l);
    ensure!(C::convert(f(&(&k * &d % r))) * g == a, "{} [k]([d]G) != [kd]G for k={} d={}", C::CNAME, k, d);
    let v = f(&k).scale_proj_point_slice::<C>(&[pp, g, ProjectivePoint::ZERO]);
    ensure!(v.len() == 3 && v[0] == a && v[1] == C::convert(f(&k)) * g && v[2] == ProjectivePoint::ZERO, "{} scale_proj_point_slice", C::CNAME);
    is("multiplication by small", &BigUint::from(3u32), C::convert(C::ScalarField::THREE) * pp, &ref_add::<C>(ref_add::<C>(q, q), q))?;
    is("multiplication by -1", r, C::convert(C::ScalarField::NEG_ONE) * pp, &ref_neg::<C>(q))?;
    is("multiplication by 0", &BigUint::zero(), C::convert(C::ScalarField::ZERO) * pp, &None)?;
    Ok(())
}

fn main() {
    Suite::new("C02", "a case is a curve, a point (identity, small multiples, random, outside the prime-order group) in a projective form of arbitrary scale, and scalars with boundary values and window structure; non-trivial = point other than the identity and scalar above 1")
        .assume("double-and-add over the reference chord-and-tangent model is the oracle; for Bls12377 points outside the prime-order group the scalar acts as the integer it stands for")
        .law("against double-and-add", 8_000, 300_000, |s| each_curve!(s, mul))
        .law("linearity and known logarithms", 8_000, 300_000, |s| each_curve!(s, logs))
        .run()
}
