//! Tables and lookups.
use crate::gen::*;
use crate::proofs::fits;
use crate::refs::*;
use crate::Src;
use plonky::*;

/// A size of at least one; powers of two and their neighbours are preferred.
pub fn extent(s: &mut Src, max: usize) -> usize {
    let n = match s.upto(4) {
        _ if s.chance(1, 60) => return s.range(max, 4 * max),
        0 => 1 << s.upto(6),
        1 => (1 << s.upto(6)) + 1,
        2 => (1usize << s.range(1, 6)) - 1,
        _ => s.size(1, max),
    };
    n.max(1).min(max)
}
pub fn value<C>(s: &mut Src) -> C::ScalarField
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let x = match s.upto(4) {
        0 => C::ScalarField::from_canonical_u64(s.below(5)),
        1 => C::ScalarField::from_canonical_u64(s.below(300)),
        _ => elem(s),
    };
    if fits::<C>(x) {
        x
    } else {
        C::ScalarField::from_canonical_u64(s.below(1 << 20))
    }
}
pub fn table<C>(s: &mut Src, max: usize) -> Vec<C::ScalarField>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = extent(s, max);
    let mut t: Vec<C::ScalarField> = vec![];
    match s.upto(5) {
        0 => {
            let a = s.below(3);
            t = (0..n).map(|i| C::ScalarField::from_canonical_u64(a + i as u64)).collect();
            if s.bool() {
                t.reverse();
            }
            s.class("consecutive values");
        }
        1 => {
            // any values, whatever repeats
            t = (0..n).map(|_| value::<C>(s)).collect();
        }
        2 => {
            let x = value::<C>(s);
            t = vec![x; n];
            s.class("constant table");
        }
        _ => {
            while t.len() < n {
                let x = value::<C>(s);
                t.push(if t.contains(&x) { C::ScalarField::from_canonical_u64(1000 + t.len() as u64) } else { x });
            }
        }
    }
    if t.contains(&C::ScalarField::ZERO) {
        s.class("zero in the table");
    }
    if (0..n).any(|i| t[..i].contains(&t[i])) {
        s.class("repetitions in the table");
    }
    t
}
pub fn subset<F: FieldRef>(s: &mut Src, t: &[F], max: usize) -> Vec<F> {
    match s.upto(5) {
        0 => {
            let x = *s.pick(t);
            vec![x; extent(s, max)]
        }
        1 => t.to_vec(),
        2 => {
            let mut v = t.to_vec();
            v.reverse();
            v.extend_from_slice(t);
            v.truncate(max);
            v
        }
        _ => (0..extent(s, max)).map(|_| *s.pick(t)).collect(),
    }
}
/// The values at `x` of the Lagrange basis over the powers of `g`, which has order `n`.
pub fn lagrange<F: FieldRef>(n: usize, g: F, x: F) -> Vec<F> {
    let mut nodes = vec![F::ONE];
    for i in 1..n {
        nodes.push(nodes[i - 1] * g);
    }
    let z = (0..n).fold(F::ONE, |a, i| a * (x - nodes[i]));
    let nf = F::from_canonical_u64(n as u64);
    nodes.iter().enumerate().map(|(i, &w)| if z == F::ZERO { if x == nodes[i] { F::ONE } else { F::ZERO } } else { w * z / (nf * (x - w)) }).collect()
}
pub fn dot<F: FieldRef>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).fold(F::ZERO, |s, (&x, &y)| s + x * y)
}
pub fn sum<F: FieldRef>(a: &[F]) -> F {
    a.iter().fold(F::ZERO, |s, &x| s + x)
}

/// The contents of a lookup proof, whose type has no public name.
#[derive(Clone)]
pub struct Parts<C: HaloCurve> {
    /// f, t, h1, h2, z, quotient
    pub c: [AffinePoint<C>; 6],
    /// at zeta and at the next point
    pub o: [[C::ScalarField; 2]; 6],
    pub l: Vec<AffinePoint<C>>,
    pub r: Vec<AffinePoint<C>>,
    pub g: AffinePoint<C>,
    pub schnorr: SchnorrProof<C>,
    pub n: usize,
}
#[macro_export]
macro_rules! lookup_parts {
    ($p:expr) => {{
        let p = &$p;
        let o = &p.openings;
        $crate::lookup::Parts {
            c: [p.c_f, p.c_t, p.c_h1, p.c_h2, p.c_z, p.c_quotient],
            o: [
                [o.f.local, o.f.right],
                [o.t.local, o.t.right],
                [o.h1.local, o.h1.right],
                [o.h2.local, o.h2.right],
                [o.z.local, o.z.right],
                [o.quotient.local, o.quotient.right],
            ],
            l: p.halo_proof.halo_l.clone(),
            r: p.halo_proof.halo_r.clone(),
            g: p.halo_proof.halo_g,
            schnorr: p.halo_proof.schnorr_proof,
            n: p.n,
        }
    }};
}
/// Make an existing proof consist of the given parts.
#[macro_export]
macro_rules! lookup_put {
    ($p:expr, $q:expr) => {{
        let (p, q) = (&mut $p, &$q);
        p.c_f = q.c[0];
        p.c_t = q.c[1];
        p.c_h1 = q.c[2];
        p.c_h2 = q.c[3];
        p.c_z = q.c[4];
        p.c_quotient = q.c[5];
        p.openings.f = (q.o[0][0], q.o[0][1]).into();
        p.openings.t = (q.o[1][0], q.o[1][1]).into();
        p.openings.h1 = (q.o[2][0], q.o[2][1]).into();
        p.openings.h2 = (q.o[3][0], q.o[3][1]).into();
        p.openings.z = (q.o[4][0], q.o[4][1]).into();
        p.openings.quotient = (q.o[5][0], q.o[5][1]).into();
        p.halo_proof.halo_l = q.l.clone();
        p.halo_proof.halo_r = q.r.clone();
        p.halo_proof.halo_g = q.g;
        p.halo_proof.schnorr_proof = q.schnorr;
        p.n = q.n;
    }};
}
/// What the prover commits to: values at the powers of the generator.
#[derive(Clone)]
pub struct Claim<F: Field> {
    /// n + 1 values each; the last of `f` is unused
    pub f: Vec<F>,
    pub t: Vec<F>,
    pub h1: Vec<F>,
    pub h2: Vec<F>,
}
pub struct Trick<'a, F: Field> {
    /// Replacement of the accumulator's values (the honest running product, last value included).
    pub z: Option<&'a dyn Fn(Vec<F>) -> Vec<F>>,
    /// Alteration of the openings, before the quotient's is chosen.
    pub o: Option<&'a dyn Fn(&mut [[F; 2]; 6])>,
    /// Claim the quotient opening the identity asks for.
    pub quotient: bool,
    /// Choose the folded generator that satisfies the final equation.
    pub fold: bool,
    pub blinding: bool,
}
fn power<F: Field>(x: F, n: usize) -> F {
    let mut r = F::ONE;
    for _ in 0..n {
        r = r * x;
    }
    r
}
/// A prover that follows the protocol on whatever values it is given.
pub fn forge<C>(claim: &Claim<C::ScalarField>, trick: &Trick<C::ScalarField>) -> Result<Parts<C>, String>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    use plonky::halo::batch_opening_proof;
    use plonky::plonk_challenger::Challenger;
    use plonky::plonk_util::{halo_g, halo_n, halo_n_mul};
    use plonky::polynomial::Polynomial;
    const BITS: usize = 128;
    let one = C::ScalarField::ONE;
    let zero = C::ScalarField::ZERO;
    let n = claim.t.len() - 1;
    let k = (n + 1).trailing_zeros() as usize;
    let s2b = |x: C::ScalarField| C::try_convert_s2b(x).map_err(|_| "a value does not fit both fields".to_string());
    let b2s = |x: C::BaseField| C::try_convert_b2s(x).map_err(|_| "a challenge does not fit both fields".to_string());
    let fft = fft_precompute::<C::ScalarField>(n + 1);
    let gs: Vec<AffinePoint<C>> = (0..2 * n + 2).map(blake_hash_usize_to_curve::<C>).collect();
    let h = blake_hash_usize_to_curve::<C>(2 * n + 2);
    let u_point = blake_hash_usize_to_curve::<C>(2 * n + 3);
    let small = msm_precompute(&AffinePoint::batch_to_projective(&gs[..n + 1]), 8);
    let large = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
    let poly = |v: &[C::ScalarField]| Polynomial::from_evaluations(v, &fft);
    let (f, t, h1, h2) = (poly(&claim.f), poly(&claim.t), poly(&claim.h1), poly(&claim.h2));
    let blind = trick.blinding;
    let mut commitments = vec![f.commit(&small, h, blind), t.commit(&small, h, false), h1.commit(&small, h, blind), h2.commit(&small, h, blind)];
    let mut tr = Challenger::<C::BaseField>::new(BITS);
    tr.observe_affine_points(&commitments.iter().map(|c| c.to_affine()).collect::<Vec<_>>());
    let (beta, gamma) = tr.get_2_challenges();
    let (beta, gamma) = (b2s(beta)?, b2s(gamma)?);
    let b1 = beta + one;
    let gb = gamma * b1;
    let mut z = vec![one];
    for i in 0..n {
        let a = b1 * (gamma + claim.f[i]) * (gb + claim.t[i] + beta * claim.t[i + 1]);
        let b = (gb + claim.h1[i] + beta * claim.h1[i + 1]) * (gb + claim.h2[i] + beta * claim.h2[i + 1]);
        z.push(z[i] * a * b.multiplicative_inverse().ok_or("zero denominator")?);
    }
    if let Some(f) = trick.z {
        z = f(z);
    }
    let z = poly(&z);
    commitments.push(z.commit(&small, h, blind));
    tr.observe_affine_point(commitments[4].to_affine());
    let alpha = b2s(tr.get_challenge())?;
    // the combination of the constraints, on a domain four times as large
    let order = 4 * (n + 1);
    let wide = fft_precompute::<C::ScalarField>(order);
    let g4 = C::ScalarField::primitive_root_of_unity(k + 2);
    let g = power(g4, 4);
    let last = power(g, n);
    let e = |p: &Polynomial<C::ScalarField>| p.padded(order).eval_domain(&wide);
    let (ef, et, e1, e2, ez) = (e(&f), e(&t), e(&h1), e(&h2), e(&z));
    let mut x = one;
    let mut values = vec![];
    let nf = C::ScalarField::from_canonical_u64(n as u64 + 1);
    let lag = |node: C::ScalarField, x: C::ScalarField| if x == node { one } else { node * (power(x, n + 1) - one) * (nf * (x - node)).multiplicative_inverse().unwrap() };
    for i in 0..order {
        let j = (i + 4) % order;
        let terms = [
            lag(one, x) * (ez[i] - one),
            (x - last) * (ez[i] * b1 * (gamma + ef[i]) * (gb + et[i] + beta * et[j]) - ez[j] * (gb + e1[i] + beta * e1[j]) * (gb + e2[i] + beta * e2[j])),
            lag(last, x) * (e1[i] - e2[j]),
            lag(last, x) * (ez[i] - one),
        ];
        values.push(terms.iter().rev().fold(zero, |a, &v| a * alpha + v));
        x = x * g4;
    }
    let mut rest = Polynomial::from_evaluations(&values, &wide).coeffs().to_vec();
    let mut q = vec![zero; rest.len().saturating_sub(n + 1)];
    for i in (n + 1..rest.len()).rev() {
        q[i - n - 1] = rest[i];
        rest[i - n - 1] = rest[i - n - 1] + rest[i];
    }
    q.resize(3 * n + 3, zero);
    q.truncate(2 * n + 2);
    let q = Polynomial::from(q);
    commitments.push(q.commit(&large, h, blind));
    tr.observe_affine_point(commitments[5].to_affine());
    let zeta = b2s(tr.get_challenge())?;
    let polys = [f, t, h1, h2, z, q];
    let mut o = [[zero; 2]; 6];
    for (i, p) in polys.iter().enumerate() {
        o[i] = [poly::eval(p.coeffs(), zeta), poly::eval(p.coeffs(), zeta * g)];
    }
    if let Some(f) = trick.o {
        f(&mut o);
    }
    if trick.quotient {
        let terms = [
            lag(one, zeta) * (o[4][0] - one),
            (zeta - last) * (o[4][0] * b1 * (gamma + o[0][0]) * (gb + o[1][0] + beta * o[1][1]) - o[4][1] * (gb + o[2][0] + beta * o[2][1]) * (gb + o[3][0] + beta * o[3][1])),
            lag(last, zeta) * (o[2][0] - o[3][1]),
            lag(last, zeta) * (o[4][0] - one),
        ];
        o[5][0] = terms.iter().rev().fold(zero, |a, &v| a * alpha + v) * (power(zeta, n + 1) - one).multiplicative_inverse().ok_or("zeta in the domain")?;
    }
    for x in o.iter() {
        tr.observe_element(s2b(x[0])?);
        tr.observe_element(s2b(x[1])?);
    }
    let (v, u, us) = tr.get_3_challenges();
    let (v, u, us) = (b2s(v)?, b2s(u)?, b2s(us)?);
    let coeffs: Vec<Vec<C::ScalarField>> = polys
        .iter()
        .map(|p| {
            let mut v = p.coeffs().to_vec();
            v.resize(2 * n + 2, zero);
            v
        })
        .collect();
    let start = tr.clone();
    let ipa = batch_opening_proof(
        &coeffs.iter().map(|v| v.as_slice()).collect::<Vec<_>>(),
        &commitments,
        &[zeta, zeta * g],
        &gs,
        h.to_projective(),
        u_point,
        u,
        v,
        us,
        2 * n + 2,
        BITS,
        &mut tr,
    )
    .map_err(|e| e.to_string())?;
    let mut c = [AffinePoint::<C>::ZERO; 6];
    for i in 0..6 {
        c[i] = commitments[i].to_affine();
    }
    let mut folded = ipa.halo_g;
    if trick.fold {
        // replay the argument's challenges
        let mut tr = start;
        let mut xs = vec![];
        for i in 0..ipa.halo_l.len() {
            tr.observe_affine_points(&[ipa.halo_l[i], ipa.halo_r[i]]);
            let r = b2s(tr.get_challenge())?;
            xs.push(halo_n::<C>(&r.to_canonical_bool_vec()[..BITS]).square_root().ok_or("not a square")?);
        }
        tr.observe_affine_point(ipa.schnorr_proof.r);
        let ch = b2s(tr.get_challenge())?;
        let times = |k: C::ScalarField, p: ProjectivePoint<C>| C::convert(k) * p;
        let up = halo_n_mul(&us.to_canonical_bool_vec()[..BITS], u_point).to_projective();
        let mut sum = ProjectivePoint::<C>::ZERO;
        let (mut value, mut p) = (zero, one);
        for i in 0..6 {
            let k = halo_n::<C>(&p.to_canonical_bool_vec()[..BITS]);
            p = p * u;
            sum = sum + times(k, c[i].to_projective());
            value = value + k * (o[i][0] + v * o[i][1]);
        }
        sum = sum + times(value, up);
        for (i, &x) in xs.iter().enumerate() {
            let inv = x.multiplicative_inverse().ok_or("zero challenge")?;
            sum = sum + times(x * x, ipa.halo_l[i].to_projective()) + times(inv * inv, ipa.halo_r[i].to_projective());
        }
        let b = halo_g(zeta, &xs) + v * halo_g(zeta * g, &xs);
        let z1 = ipa.schnorr_proof.z1.multiplicative_inverse().ok_or("zero response")?;
        let s = times(ch, sum) + ipa.schnorr_proof.r.to_projective() + times(-ipa.schnorr_proof.z2, h.to_projective());
        folded = (times(z1, s) + times(-b, up)).to_affine();
    }
    Ok(Parts { c, o, l: ipa.halo_l, r: ipa.halo_r, g: folded, schnorr: ipa.schnorr_proof, n })
}
