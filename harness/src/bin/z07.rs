//! Z07: polynomial commitments are the declared linear map.
use plonky::plonk_util::{commit_polynomials, pedersen_hash};
use plonky::poly_commit::PolynomialCommitment;
use plonky::polynomial::Polynomial;
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

struct Key<C: Curve> {
    g: Vec<Pt<C>>,
    h: Pt<C>,
    m: MsmPrecomputation<C>,
}
/// Generators of the prime-order group, or anywhere on the curve.
fn key<C: CurveRef>(s: &mut Src, n: usize, anywhere: bool) -> Key<C>
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let same = s.chance(1, 10);
    let g: Vec<Pt<C>> = if s.bool() {
        (0..n).map(|i| if anywhere || C::CNAME != "Bls12377" { pt(&blake_hash_usize_to_curve::<C>(i)) } else { point::<C>(s) }).collect()
    } else {
        let x = point::<C>(s);
        (0..n).map(|_| if same {
                x
            } else if anywhere {
                any_point::<C>(s)
            } else {
                point::<C>(s)
            }).collect()
    };
    let h = if s.chance(1, 8) && n > 0 && g[0].is_some() { g[0] } else { point::<C>(s).or(C::pool()[0].1) };
    let w = s.range(1, 9);
    let m = msm_precompute(&AffinePoint::batch_to_projective(&g.iter().map(|&x| aff::<C>(x)).collect::<Vec<_>>()), w);
    s.note(|| format!("{} generators, window {}", n, w));
    Key { g, h, m }
}
fn expected<C: CurveRef>(k: &Key<C>, v: &[C::ScalarField], r: C::ScalarField) -> Pt<C>
where
    C::ScalarField: FieldRef,
{
    k.g.iter().zip(v).fold(ref_mul_scalar::<C>(k.h, r), |a, (&g, &x)| ref_add::<C>(a, ref_mul_scalar::<C>(g, x)))
}
fn full<F: FieldRef>(s: &mut Src, n: usize) -> Vec<F> {
    let mut v = coeffs::<F>(s, n);
    v.resize(n, F::ZERO);
    v
}
fn map<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let n = s.tail(1, 12, 300, 60);
    let k = key::<C>(s, n, true);
    let blinding = s.bool();
    let count = s.size(1, 4);
    let h = aff::<C>(k.h);
    s.seed_code_rng();
    let vs: Vec<Vec<C::ScalarField>> = (0..count).map(|_| full(s, n)).collect();
    s.note(|| vs.iter().map(|v| shows(v)).collect::<Vec<_>>().join(" "));
    if vs.iter().any(|v| v.iter().filter(|x| x.is_nonzero()).count() > 1) {
        s.nontrivial();
    }
    let polys: Vec<Polynomial<C::ScalarField>> = vs.iter().map(|v| Polynomial::from(v.clone())).collect();
    let slices: Vec<&[C::ScalarField]> = vs.iter().map(|v| v.as_slice()).collect();
    let (how, made): (_, Vec<PolynomialCommitment<C>>) = match s.upto(4) {
        0 => ("singly", vs.iter().map(|v| PolynomialCommitment::coeffs_to_commitment(v, &k.m, h, blinding)).collect()),
        1 => ("in batch", PolynomialCommitment::coeffs_vec_to_commitments(&slices, &k.m, h, blinding)),
        2 => ("as polynomials", polys.iter().map(|p| p.commit(&k.m, h, blinding)).collect()),
        _ => ("as a batch of polynomials", commit_polynomials(&polys, &k.m, h, blinding)),
    };
    ensure!(made.len() == count, "{} commitments of {} polynomials", made.len(), count);
    let points = PolynomialCommitment::commitments_to_affine_vec(&made);
    for i in 0..count {
        let r = made[i].randomness;
        ensure!(blinding || r == C::ScalarField::ZERO, "blinding is off but the factor is {}", show(r));
        ensure!(!blinding || r != C::ScalarField::ZERO, "blinded with zero");
        let got = points[i];
        ensure!(pt(&got) == expected(&k, &vs[i], r), "commitment {} of {} made {} (blinding {}) is {:?}, expected {:?}", i, shows(&vs[i]), how, blinding, pt(&got), expected(&k, &vs[i], r));
        ensure!(made[i].to_affine() == got, "to_affine differs from commitments_to_affine_vec");
        let bare = pt_proj::<C>(&pedersen_hash(&vs[i], &k.m))?;
        ensure!(bare == expected(&k, &vs[i], C::ScalarField::ZERO), "pedersen_hash of {}", shows(&vs[i]));
    }
    // conversion in place keeps everything, whatever mixture of coordinates
    let mut mixed: Vec<PolynomialCommitment<C>> = vec![];
    let mut want = vec![];
    for _ in 0..s.size(0, 6) {
        if s.bool() {
            let q = aff::<C>(any_point::<C>(s));
            let c: PolynomialCommitment<C> = q.into();
            ensure!(c.randomness == C::ScalarField::ZERO, "a bare point carries the factor {}", show(c.randomness));
            mixed.push(c);
            want.push((q, C::ScalarField::ZERO));
        } else {
            let i = s.upto(count);
            let c = PolynomialCommitment::coeffs_to_commitment(&vs[i], &k.m, h, s.bool());
            want.push((aff::<C>(expected(&k, &vs[i], c.randomness)), c.randomness));
            mixed.push(c);
        }
    }
    if s.bool() {
        PolynomialCommitment::batch_to_affine(&mut mixed);
    }
    for (c, w) in mixed.iter().zip(&want) {
        ensure!(c.to_affine() == w.0 && c.randomness == w.1, "a commitment changed in a batch conversion");
    }
    Ok(())
}
/// Commitments add and scale like polynomials, with their blinding factors.
fn linear<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let n = s.tail(1, 40, 300, 60);
    let k = key::<C>(s, n, false);
    let h = aff::<C>(k.h);
    s.seed_code_rng();
    let (a, b) = (full::<C::ScalarField>(s, n), full::<C::ScalarField>(s, n));
    let c = elem::<C::ScalarField>(s);
    s.note(|| format!("{} + {} * {}", shows(&a), show(c), shows(&b)));
    if a.iter().any(|x| x.is_nonzero()) && b.iter().any(|x| x.is_nonzero()) && c.is_nonzero() {
        s.nontrivial();
    }
    let blinding = s.bool();
    let x = PolynomialCommitment::coeffs_to_commitment(&a, &k.m, h, blinding);
    let y = PolynomialCommitment::coeffs_to_commitment(&b, &k.m, h, blinding);
    let sum: Vec<C::ScalarField> = a.iter().zip(&b).map(|(&a, &b)| a + c * b).collect();
    let z = PolynomialCommitment::coeffs_to_commitment(&sum, &k.m, h, false);
    let left = ref_add::<C>(pt(&x.to_affine()), ref_mul_scalar::<C>(pt(&y.to_affine()), c));
    let right = ref_add::<C>(pt(&z.to_affine()), ref_mul_scalar::<C>(k.h, x.randomness + c * y.randomness));
    ensure!(left == right, "commitments do not add and scale like {} + {} * {}", shows(&a), show(c), shows(&b));
    // hiding: another time, another factor
    if blinding {
        let again = PolynomialCommitment::coeffs_to_commitment(&a, &k.m, h, true);
        ensure!(again.randomness != x.randomness, "the same blinding factor twice");
        ensure!(again.to_affine() != x.to_affine(), "two blinded commitments are equal");
        let many = PolynomialCommitment::coeffs_vec_to_commitments(&[&a[..], &a[..], &b[..]], &k.m, h, true);
        for i in 0..3 {
            for j in 0..i {
                ensure!(many[i].randomness != many[j].randomness, "the same blinding factor twice in a batch");
            }
            ensure!(many[i].randomness != x.randomness && many[i].randomness != y.randomness, "a blinding factor used again");
        }
    } else {
        let again = PolynomialCommitment::coeffs_to_commitment(&a, &k.m, h, false);
        ensure!(again.to_affine() == x.to_affine(), "two bare commitments of one polynomial differ");
    }
    Ok(())
}
fn map_l(s: &mut Src) -> Res {
    each_curve!(s, map)
}
fn linear_l(s: &mut Src) -> Res {
    each_curve!(s, linear)
}
fn main() {
    Suite::new("Z07", "All five curves; 1 to 40 generators (hashed, random, equal, with identities), windows of 1 to 9 bits, coefficient lists with boundary values and runs of zeros, singly or in batches, blinded or not; mixtures of affine and projective commitments. Non-trivial: a list with at least two nonzero coefficients (both lists and the factor nonzero for linearity).")
        .assume("linearity needs generators of the prime-order group").assume("there are as many coefficients as generators (asserted by the multiplication)")
        .law("commitments are sums of generators", 1000, 20000, map_l)
        .law("commitments are linear and blinded afresh", 1000, 20000, linear_l)
        .run();
}
