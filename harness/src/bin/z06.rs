//! Z06: the inner-product opening argument.
use num::BigUint;
use plonky::halo::{batch_opening_proof, verify_ipa};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s};
use plonky::poly_commit::PolynomialCommitment;
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Everything the verifier of an opening works with.
#[derive(Clone)]
struct Opening<C: HaloCurve> {
    l: Vec<AffinePoint<C>>,
    r: Vec<AffinePoint<C>>,
    g: AffinePoint<C>,
    commitment: AffinePoint<C>,
    value: C::ScalarField,
    b: C::ScalarField,
    us: Vec<C::ScalarField>,
    u_prime: AffinePoint<C>,
    h: AffinePoint<C>,
    challenge: C::ScalarField,
    schnorr: SchnorrProof<C>,
}
fn check<C: HaloCurve>(o: &Opening<C>) -> Result<bool, String> {
    catching(|| {
        verify_ipa::<C>(&o.l, &o.r, o.g, o.commitment.to_projective(), o.value, o.b, &o.us, o.u_prime.to_projective(), o.h, o.challenge, o.schnorr)
    })
}
fn power_sum<F: Field>(v: &[F], x: F) -> F {
    poly::eval(v, x)
}
fn times<C: HaloCurve>(k: C::ScalarField, p: AffinePoint<C>) -> ProjectivePoint<C> {
    C::convert(k) * p.to_projective()
}
struct Statement<C: HaloCurve> {
    polys: Vec<Vec<C::ScalarField>>,
    points: Vec<C::ScalarField>,
    scalars: Vec<C::ScalarField>,
    v: C::ScalarField,
    n: usize,
}
fn make<C>(s: &mut Src) -> Result<Option<(Statement<C>, Opening<C>)>, String>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let log = s.tail(0, 6, 9, 100);
    let n = 1 << log;
    let bits = if s.bool() { 128 } else { 2 * s.range(32, 110) };
    let count = s.size(1, 6);
    let g: Vec<AffinePoint<C>> = (0..n).map(|i| blake_hash_usize_to_curve::<C>(i)).collect();
    let h = blake_hash_usize_to_curve::<C>(n);
    let u_curve = blake_hash_usize_to_curve::<C>(n + 1);
    let m = msm_precompute(&AffinePoint::batch_to_projective(&g), 4);
    let mut polys = vec![];
    let mut commitments: Vec<PolynomialCommitment<C>> = vec![];
    s.seed_code_rng();
    for _ in 0..count {
        let mut v = coeffs::<C::ScalarField>(s, n);
        v.resize(n, C::ScalarField::ZERO);
        commitments.push(PolynomialCommitment::coeffs_to_commitment(&v, &m, h, s.bool()));
        polys.push(v);
    }
    // as for accumulated proofs: a bare point of a shorter polynomial
    if s.bool() && log > 0 {
        let k = s.upto(log);
        let us: Vec<C::ScalarField> = (0..k).map(|_| nonzero(s)).collect();
        let v = halo_s(&us);
        let p = msm_parallel(&v, &AffinePoint::batch_to_projective(&g[..v.len()]), 4).to_affine();
        commitments.push(p.into());
        polys.push(v);
    }
    let points: Vec<C::ScalarField> = many(s, 0).into_iter().chain((0..s.range(1, 4)).map(|_| elem(s)).collect::<Vec<_>>()).collect();
    let (u, v, u_scaling) = (uniform::<C::ScalarField>(s), elem::<C::ScalarField>(s), uniform::<C::ScalarField>(s));
    // any history before
    let mut t = Challenger::<C::BaseField>::new(bits);
    for _ in 0..s.size(0, 3) {
        t.observe_element(elem(s));
    }
    let mut replay = t.clone();
    s.note(|| format!("{} rows, {} bits, {} polynomials at {}, v {}", n, bits, polys.len(), shows(&points), show(v)));
    if n > 1 && polys.len() > 1 {
        s.nontrivial();
    }
    let proof = match catching(|| {
        batch_opening_proof(&polys.iter().map(|p| p.as_slice()).collect::<Vec<_>>(), &commitments, &points, &g, h.to_projective(), u_curve, u, v, u_scaling, n, bits, &mut t)
    }) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(format!("no opening proof: {}", e)),
        Err(e) => return Err(format!("opening {} polynomials of {} coefficients panicked: {}", polys.len(), n, e)),
    };
    ensure!(proof.halo_l.len() == log && proof.halo_r.len() == log, "{} and {} round messages for {} coefficients", proof.halo_l.len(), proof.halo_r.len(), n);
    let bits_of = |x: C::ScalarField| -> Vec<bool> {
        let b = big(x);
        (0..bits).map(|i| (&b >> i) & BigUint::from(1u32) == BigUint::from(1u32)).collect()
    };
    let mut scalars = vec![];
    let mut p = C::ScalarField::ONE;
    for _ in 0..polys.len() {
        scalars.push(halo_n::<C>(&bits_of(p)));
        p = p * u;
    }
    let mut us = vec![];
    for j in 0..log {
        replay.observe_affine_points(&[proof.halo_l[j], proof.halo_r[j]]);
        let r = C::try_convert_b2s(replay.get_challenge()).map_err(|_| "challenge out of range".to_string())?;
        match halo_n::<C>(&bits_of(r)).square_root() {
            Some(x) => us.push(x),
            None => return Err(format!("round {} has no challenge", j)),
        }
    }
    replay.observe_affine_point(proof.schnorr_proof.r);
    let challenge = C::try_convert_b2s(replay.get_challenge()).map_err(|_| "challenge out of range".to_string())?;
    ensure!(t.get_challenge() == replay.get_challenge(), "the prover's transcript is not the verifier's afterwards");
    let commitment = commitments.iter().zip(&scalars).fold(ProjectivePoint::<C>::ZERO, |a, (c, &k)| a + times(k, c.to_affine())).to_affine();
    let values: Vec<C::ScalarField> = points.iter().map(|&x| polys.iter().zip(&scalars).fold(C::ScalarField::ZERO, |a, (p, &k)| a + k * poly::eval(p, x))).collect();
    let gs: Vec<C::ScalarField> = points.iter().map(|&x| reference_g(&us, x)).collect();
    let folded = msm_parallel(&reference_s(&us), &AffinePoint::batch_to_projective(&g), 4).to_affine();
    ensure!(folded == proof.halo_g, "the folded generator is not the folding of the generators by the round challenges");
    let o = Opening {
        l: proof.halo_l,
        r: proof.halo_r,
        g: proof.halo_g,
        commitment,
        value: power_sum(&values, v),
        b: power_sum(&gs, v),
        us,
        u_prime: halo_n_mul(&bits_of(u_scaling), u_curve),
        h,
        challenge,
        schnorr: proof.schnorr_proof,
    };
    Ok(Some((Statement { polys, points, scalars, v, n }, o)))
}
/// Coefficients and value of prod_j (u_j^-1 + u_j X^(2^(k-1-j))).
fn reference_s<F: Field>(us: &[F]) -> Vec<F> {
    let mut v = vec![F::ONE];
    for &u in us {
        let i = u.multiplicative_inverse().expect("nonzero");
        v = v.into_iter().flat_map(|x| vec![x * i, x * u]).collect();
    }
    v
}
fn reference_g<F: Field>(us: &[F], x: F) -> F {
    poly::eval(&reference_s(us), x)
}
fn honest<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let (t, o) = match make::<C>(s)? {
        Some(x) => x,
        None => return Ok(()),
    };
    match check(&o) {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("the true evaluations of {} polynomials of {} coefficients at {} are rejected", t.polys.len(), t.n, shows(&t.points))),
        Err(e) => Err(format!("verification panicked: {}", e)),
    }
}
fn binding<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let (t, o) = match make::<C>(s)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if !check(&o)? {
        return Err("the true evaluations are rejected".into());
    }
    for _ in 0..4 {
        let mut x = o.clone();
        let d = nonzero::<C::ScalarField>(s);
        let pick = |s: &mut Src, p: AffinePoint<C>| match s.upto(4) {
            0 => aff::<C>(ref_add::<C>(pt(&p), pt(&C::GENERATOR_AFFINE))),
            1 => -p,
            2 => AffinePoint::<C>::ZERO,
            _ => aff::<C>(point::<C>(s)),
        };
        let k = o.us.len();
        let what = match s.upto(13) {
            0 => {
                x.value = x.value + d;
                "value"
            }
            1 => {
                // one evaluation of one polynomial at one point
                let (i, j) = (s.upto(t.polys.len()), s.upto(t.points.len()));
                let mut c = t.scalars[i] * d;
                for _ in 0..j {
                    c = c * t.v;
                }
                x.value = x.value + c;
                "one evaluation"
            }
            2 => {
                x.commitment = pick(s, x.commitment);
                "commitment"
            }
            3 => {
                // another point, with the same claim
                let mut points = t.points.clone();
                let j = s.upto(points.len());
                points[j] = elem(s);
                let gs: Vec<C::ScalarField> = points.iter().map(|&p| reference_g(&o.us, p)).collect();
                x.b = power_sum(&gs, t.v);
                "opening point"
            }
            4 => {
                x.b = x.b + d;
                "folded powers"
            }
            5 if k > 0 => {
                let j = s.upto(k);
                x.l[j] = pick(s, x.l[j]);
                "left message"
            }
            6 if k > 0 => {
                let j = s.upto(k);
                x.r[j] = pick(s, x.r[j]);
                "right message"
            }
            7 if k > 0 => {
                let j = s.upto(k);
                x.us[j] = d;
                // only its square counts
                if d * d == o.us[j] * o.us[j] {
                    continue;
                }
                "round challenge"
            }
            8 => {
                x.g = pick(s, x.g);
                "folded generator"
            }
            9 => {
                x.schnorr.r = pick(s, x.schnorr.r);
                "Schnorr commitment"
            }
            10 => {
                if s.bool() {
                    x.schnorr.z1 = x.schnorr.z1 + d;
                } else {
                    x.schnorr.z2 = x.schnorr.z2 + d;
                }
                "Schnorr response"
            }
            11 => {
                x.challenge = x.challenge + d;
                "Schnorr challenge"
            }
            _ if k > 1 => {
                let (i, j) = (s.upto(k), s.upto(k));
                x.l.swap(i, j);
                x.r.swap(i, j);
                "order of the rounds"
            }
            _ => continue,
        };
        let unchanged = x.value == o.value && x.commitment == o.commitment && x.b == o.b && x.l == o.l && x.r == o.r && x.us == o.us && x.g == o.g && x.schnorr.r == o.schnorr.r && x.schnorr.z1 == o.schnorr.z1 && x.schnorr.z2 == o.schnorr.z2 && x.challenge == o.challenge;
        if unchanged {
            continue;
        }
        s.class(what);
        // equations in which the altered part is multiplied by zero hold for any value of it
        let degenerate = match what {
            "folded powers" | "opening point" | "folded generator" => o.schnorr.z1.is_zero(),
            "Schnorr challenge" => {
                let mut q = o.commitment.to_projective() + times(o.value, o.u_prime);
                for j in 0..k {
                    let square = o.us[j] * o.us[j];
                    q = q + times(square, o.l[j]) + times(square.multiplicative_inverse().unwrap(), o.r[j]);
                }
                q.to_affine() == AffinePoint::<C>::ZERO
            }
            _ => false,
        };
        if degenerate {
            continue;
        }
        match check(&x) {
            Ok(false) => {}
            Ok(true) => return Err(format!("accepted with another {}", what)),
            Err(e) => return Err(format!("another {}: panic {}", what, e)),
        }
    }
    Ok(())
}
/// The folding vector and its evaluation.
fn folding<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let k = s.tail(0, 9, 13, 60);
    let us: Vec<C::ScalarField> = (0..k).map(|_| nonzero(s)).collect();
    let x = elem::<C::ScalarField>(s);
    s.note(|| format!("challenges {} at {}", shows(&us), show(x)));
    if k > 1 {
        s.nontrivial();
    }
    let v = halo_s(&us);
    ensure!(v.len() == 1 << k, "{} entries for {} challenges", v.len(), k);
    let inv: Vec<C::ScalarField> = us.iter().map(|u| u.multiplicative_inverse().unwrap()).collect();
    // entry i is the product of u_j or its inverse, by the bits of i, first challenge first
    for (i, &y) in v.iter().enumerate() {
        let mut p = C::ScalarField::ONE;
        for (j, &u) in us.iter().enumerate() {
            p = p * if i >> (k - 1 - j) & 1 == 1 { u } else { inv[j] };
        }
        ensure!(y == p, "entry {} of the folding vector of {} is {}, expected {}", i, shows(&us), show(y), show(p));
    }
    let want = poly::eval(&v, x);
    ensure!(halo_g(x, &us) == want, "halo_g({}, {}) is {}, expected {}", show(x), shows(&us), show(halo_g(x, &us)), show(want));
    let o = OldProof::<C> { halo_g: C::GENERATOR_AFFINE, halo_us: us.clone() };
    ensure!(o.coeffs() == v, "coefficients of an old proof are not its folding vector");
    ensure!(o.evaluate_g(x) == want, "value of an old proof is not its polynomial's");
    Ok(())
}
fn honest_l(s: &mut Src) -> Res {
    each_halo!(s, honest)
}
fn binding_l(s: &mut Src) -> Res {
    each_halo!(s, binding)
}
fn folding_l(s: &mut Src) -> Res {
    each_halo!(s, folding)
}
fn main() {
    Suite::new("Z06", "The Halo curves; 1 to 64 (now and then 512) generators, one to seven polynomials (zero, sparse, random, shorter folding vectors), blinded or not, at one to four points (also equal, zero, one), any combining challenges, security levels from 64 to 218 bits, after any transcript. The reduction to one claim and the challenges are recomputed from their definitions. Altered values, single evaluations, commitments, points, round messages, challenges and Schnorr parts. Folding vectors of up to 8192 entries. Non-trivial: several polynomials and generators.")
        .assume("the round challenges come from the transcript (a cheating prover who chooses them is Z03 and Z05's subject)")
        .law("true evaluations are accepted", 600, 12000, honest_l)
        .law("anything else is rejected", 600, 12000, binding_l)
        .law("folding vectors obey their definition", 1000, 50000, folding_l)
        .run();
}
