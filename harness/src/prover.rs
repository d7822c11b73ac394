//! A prover that follows the protocol on whatever it is given: unsatisfying wire values, claimed
//! public inputs the wires do not carry, false openings, a folded generator solved for. It is
//! the adversary of the soundness checks; its proofs are only ever judged by the verifier.
use crate::gen::*;
use crate::refs::*;
use plonky::halo::batch_opening_proof;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::{commit_polynomials, halo_g, halo_n, halo_n_mul, permutation_polynomial, sigma_polynomials};
use plonky::polynomial::Polynomial;
use plonky::*;

/// What the prover sees of the transcript when it chooses its openings.
pub struct Seen<'a, F> {
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub zeta: F,
    pub shifts: &'a [F],
    pub g: F,
}
pub struct Plan<'a, C: HaloCurve> {
    /// Public inputs claimed, if other than the wires'.
    pub claim: Option<Vec<C::ScalarField>>,
    /// Public inputs chosen when alpha is known, for a transcript that takes them in only later.
    pub late: Option<&'a dyn Fn(C::ScalarField, &[C::ScalarField]) -> Vec<C::ScalarField>>,
    /// Replacement of the accumulator's values.
    pub accumulator: Option<&'a dyn Fn(Vec<C::ScalarField>) -> Vec<C::ScalarField>>,
    /// Alteration of the openings (local, right, below).
    pub openings: Option<&'a dyn Fn(&mut [OpeningSet<C::ScalarField>; 3], &Seen<C::ScalarField>)>,
    /// Choose the folded generator that satisfies the final equation.
    pub fold: bool,
    /// Send the permutation polynomials of a circuit without copies as extra wires, and shift the
    /// lists of openings so that they are taken for the circuit's own.
    pub shift: bool,
    pub blinding: bool,
    /// The polynomials behind the old proofs' generators, if other than the genuine ones.
    pub old: Option<Vec<Vec<C::ScalarField>>>,
}
impl<'a, C: HaloCurve> Default for Plan<'a, C> {
    fn default() -> Self {
        Plan { claim: None, late: None, accumulator: None, openings: None, fold: false, shift: false, blinding: true, old: None }
    }
}
/// Quotient by X^n - 1, without the remainder.
fn by_vanishing<F: Field>(mut v: Vec<F>, n: usize) -> Vec<F> {
    let mut q = vec![F::ZERO; v.len().saturating_sub(n)];
    for k in (n..v.len()).rev() {
        q[k - n] = v[k];
        v[k - n] = v[k - n] + v[k];
    }
    q
}
fn power<F: Field>(x: F, n: usize) -> F {
    let mut r = F::ONE;
    for _ in 0..n {
        r = r * x;
    }
    r
}
pub fn prove<C, I>(c: &Circuit<C>, rows: &[Vec<C::ScalarField>], old: &[OldProof<C>], plan: &Plan<C>) -> Result<(Proof<C>, Vec<C::ScalarField>), String>
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    let one = C::ScalarField::ONE;
    let zero = C::ScalarField::ZERO;
    let n = rows.len();
    let g = c.subgroup_generator_n;
    let shifts: Vec<C::ScalarField> = sigma_polynomials::<C::ScalarField>((0..n * ROUTED).collect(), n, g).iter().map(|r| r[0]).collect();
    let column = |j: usize| -> Vec<C::ScalarField> { rows.iter().map(|r| r[j]).collect() };
    let wires: Vec<Polynomial<C::ScalarField>> = (0..WIRES).map(|j| Polynomial::from_evaluations(&column(j), &c.fft_precomputation_n)).collect();
    let carried: Vec<C::ScalarField> = (0..c.num_public_inputs).map(|i| rows[c.num_gates_without_pis + 2 * (i / WIRES)][i % WIRES]).collect();
    let mut pis = plan.claim.clone().unwrap_or(carried);
    let s2b = |x: C::ScalarField| C::try_convert_s2b(x).map_err(|_| "a value does not fit both fields".to_string());
    let b2s = |x: C::BaseField| C::try_convert_b2s(x).map_err(|_| "a challenge does not fit both fields".to_string());
    let commit = |p: &[Polynomial<C::ScalarField>]| commit_polynomials(p, &c.pedersen_g_msm_precomputation, c.pedersen_h, plan.blinding);
    let points = |v: &[PolynomialCommitment<C>]| -> Vec<AffinePoint<C>> { v.iter().map(|x| x.to_affine()).collect() };

    let mut t = Challenger::<C::BaseField>::new(c.security_bits);
    if plan.late.is_none() {
        for &x in &pis {
            t.observe_element(s2b(x)?);
        }
    }
    let free: Vec<Polynomial<C::ScalarField>> = if plan.shift {
        (0..ROUTED).map(|j| Polynomial::from_evaluations(&c.subgroup_n.iter().map(|&x| shifts[j] * x).collect::<Vec<_>>(), &c.fft_precomputation_n)).collect()
    } else {
        vec![]
    };
    let c_wires = commit(&[free.clone(), wires.clone()].concat());
    t.observe_affine_points(&points(&c_wires));
    let (beta, gamma) = t.get_2_challenges();
    let (beta, gamma) = (b2s(beta)?, b2s(gamma)?);
    let mut z = permutation_polynomial(n, &c.subgroup_n, &Witness::new(rows.to_vec()), &c.s_sigma_values_8n, beta, gamma);
    if plan.shift {
        z = vec![one; n];
    }
    if let Some(f) = plan.accumulator {
        z = f(z);
    }
    let z = Polynomial::from_evaluations(&z, &c.fft_precomputation_n);
    let c_z = commit(&[z.clone()]).remove(0);
    t.observe_affine_point(c_z.to_affine());
    let alpha = b2s(t.get_challenge())?;
    if let Some(f) = plan.late {
        pis = f(alpha, &pis);
    }

    // the combination of all constraints on the extended domain
    let wide: Vec<Vec<C::ScalarField>> = wires.iter().map(|p| p.padded(8 * n).eval_domain(&c.fft_precomputation_8n)).collect();
    let wide_z = z.padded(8 * n).eval_domain(&c.fft_precomputation_8n);
    let combined: Vec<C::ScalarField> = (0..8 * n)
        .map(|i| {
            let x = c.subgroup_8n[i];
            let at = |k: usize| -> Vec<C::ScalarField> { wide.iter().map(|w| w[(i + 8 * k) % (8 * n)]).collect() };
            let local = at(0);
            let constants: Vec<C::ScalarField> = c.constants_8n.iter().map(|v| v[i]).collect();
            // L_1(x) = (1 + x + ... + x^(n-1)) / n
            let l1 = if x == one { one } else { (power(x, n) - one) * (C::ScalarField::from_canonical_usize(n) * (x - one)).multiplicative_inverse().unwrap() };
            let mut terms = vec![l1 * (wide_z[i] - one)];
            let (mut a, mut b) = (wide_z[i], wide_z[(i + 8) % (8 * n)]);
            for j in 0..ROUTED {
                a = a * (local[j] + beta * shifts[j] * x + gamma);
                b = b * (local[j] + beta * if plan.shift { shifts[j] * x } else { c.s_sigma_values_8n[j][i] } + gamma);
            }
            terms.push(a - b);
            terms.extend(evaluate_all_constraints::<C, I>(&constants, &local, &at(1), &at(GRID)));
            terms.iter().rev().fold(zero, |acc, &x| acc * alpha + x)
        })
        .collect();
    let combined = Polynomial::from_evaluations(&combined, &c.fft_precomputation_8n);
    let mut q = by_vanishing(combined.coeffs().to_vec(), n);
    q.resize(7 * n, zero);
    let chunks: Vec<Polynomial<C::ScalarField>> = q.chunks(n).map(|v| Polynomial::from(v.to_vec())).collect();
    let c_t = commit(&chunks);

    // public inputs
    let mut values = vec![zero; n];
    for i in 0..n {
        values[i] = (0..WIRES).fold(zero, |a, j| a + power(alpha, j) * rows[i][j]);
    }
    for (k, &x) in pis.iter().enumerate() {
        let i = c.num_gates_without_pis + 2 * (k / WIRES);
        if i < n {
            values[i] = values[i] - power(alpha, k % WIRES) * x;
        }
    }
    let gates = (c.num_public_inputs + WIRES - 1) / WIRES;
    let numerator = Polynomial::from_evaluations(&values, &c.fft_precomputation_n);
    let denominator = (0..gates).fold(vec![one], |d, i| poly::mul(&d, &[-c.subgroup_n[c.num_gates_without_pis + 2 * i], one]));
    let mut quotient = poly::divide(numerator.coeffs(), &denominator).0;
    quotient.resize(n, zero);
    let pi_quotient = Polynomial::from(quotient);
    let c_pi = commit(&[pi_quotient.clone()]).remove(0);
    t.observe_affine_points(&points(&c_t));
    t.observe_affine_point(c_pi.to_affine());
    if plan.late.is_some() {
        for &x in &pis {
            t.observe_element(s2b(x)?);
        }
    }
    for o in old {
        t.observe_affine_point(o.halo_g);
        for &u in &o.halo_us {
            t.observe_element(s2b(u)?);
        }
    }
    let zeta = b2s(t.get_challenge())?;

    let old_polys: Vec<Polynomial<C::ScalarField>> = match &plan.old {
        Some(v) => v.iter().map(|c| Polynomial::from(c.clone())).collect(),
        None => old.iter().map(|o| Polynomial::from(o.coeffs())).collect(),
    };
    let at = [zeta, zeta * g, zeta * power(g, GRID)];
    let set = |x: C::ScalarField| {
        let e = |v: &[Polynomial<C::ScalarField>]| -> Vec<C::ScalarField> { v.iter().map(|p| poly::eval(p.coeffs(), x)).collect() };
        OpeningSet {
            o_constants: if plan.shift { e(&[c.constant_polynomials.clone(), c.s_sigma_polynomials.clone()].concat()) } else { e(&c.constant_polynomials) },
            o_plonk_sigmas: if plan.shift { e(&free) } else { e(&c.s_sigma_polynomials) },
            o_wires: e(&wires),
            o_plonk_z: poly::eval(z.coeffs(), x),
            o_plonk_t: e(&chunks),
            o_old_proofs: e(&old_polys),
            o_pi_quotient: poly::eval(pi_quotient.coeffs(), x),
        }
    };
    let mut sets = [set(at[0]), set(at[1]), set(at[2])];
    if let Some(f) = plan.openings {
        f(&mut sets, &Seen { alpha, beta, gamma, zeta, shifts: &shifts, g });
    }
    for o in &sets {
        for x in o.to_vec() {
            t.observe_element(s2b(x)?);
        }
    }
    let (v, u, u_scaling) = t.get_3_challenges();
    let (v, u, u_scaling) = (b2s(v)?, b2s(u)?, b2s(u_scaling)?);
    let commitments: Vec<PolynomialCommitment<C>> =
        [c.c_constants.clone(), c.c_s_sigmas.clone(), c_wires.clone(), vec![c_z], c_t.clone(), old.iter().map(|o| o.halo_g.into()).collect(), vec![c_pi]].concat();
    let polys: Vec<Polynomial<C::ScalarField>> =
        [c.constant_polynomials.clone(), c.s_sigma_polynomials.clone(), free, wires, vec![z], chunks, old_polys, vec![pi_quotient]].concat();
    let halo = batch_opening_proof(
        &polys.iter().map(|p| p.coeffs()).collect::<Vec<_>>(),
        &commitments,
        &at,
        &c.pedersen_g,
        c.pedersen_h.to_projective(),
        c.u,
        u,
        v,
        u_scaling,
        n,
        c.security_bits,
        &mut t,
    )
    .map_err(|e| e.to_string())?;
    let [o_local, o_right, o_below] = sets;
    let mut proof = Proof {
        c_wires: points(&c_wires),
        c_plonk_z: c_z.to_affine(),
        c_plonk_t: points(&c_t),
        c_pis_quotient: c_pi.to_affine(),
        o_local,
        o_right,
        o_below,
        halo_g: halo.halo_g,
        halo_l: halo.halo_l,
        halo_r: halo.halo_r,
        schnorr_proof: halo.schnorr_proof,
    };
    if plan.fold {
        fold(c, &mut proof, &pis, old)?;
    }
    Ok((proof, pis))
}
/// Replace the folded generator by the point that satisfies the final equation of the
/// inner-product argument, whatever the openings are.
pub fn fold<C: HaloCurve>(c: &Circuit<C>, proof: &mut Proof<C>, pis: &[C::ScalarField], old: &[OldProof<C>]) -> Result<(), String> {
    let ch = proof.get_challenges_with_security(pis, old, c.security_bits).map_err(|e| e.to_string())?;
    let all: Vec<AffinePoint<C>> = [
        c.c_constants.iter().map(|x| x.to_affine()).collect::<Vec<_>>(),
        c.c_s_sigmas.iter().map(|x| x.to_affine()).collect(),
        proof.c_wires.clone(),
        vec![proof.c_plonk_z],
        proof.c_plonk_t.clone(),
        old.iter().map(|o| o.halo_g).collect(),
        vec![proof.c_pis_quotient],
    ]
    .concat();
    let mut scalar = vec![];
    let mut p = C::ScalarField::ONE;
    for _ in 0..all.len() {
        scalar.push(halo_n::<C>(&p.to_canonical_bool_vec()[..c.security_bits]));
        p = p * ch.u;
    }
    let sets: Vec<C::ScalarField> =
        proof.all_opening_sets().iter().map(|o| o.to_vec().iter().zip(&scalar).fold(C::ScalarField::ZERO, |a, (&x, &k)| a + x * k)).collect();
    let value = sets[0] + ch.v * (sets[1] + ch.v * sets[2]);
    let g = c.subgroup_generator_n;
    let b = halo_g(ch.zeta, &ch.halo_us) + ch.v * (halo_g(ch.zeta * g, &ch.halo_us) + ch.v * halo_g(ch.zeta * power(g, GRID), &ch.halo_us));
    let u = halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..c.security_bits], c.u).to_projective();
    let times = |k: C::ScalarField, p: ProjectivePoint<C>| C::convert(k) * p;
    let mut q = times(value, u);
    for (p, &k) in all.iter().zip(&scalar) {
        q = q + times(k, p.to_projective());
    }
    for (i, &x) in ch.halo_us.iter().enumerate() {
        let inv = x.multiplicative_inverse().ok_or("zero challenge")?;
        q = q + times(x * x, proof.halo_l[i].to_projective()) + times(inv * inv, proof.halo_r[i].to_projective());
    }
    let z1 = proof.schnorr_proof.z1.multiplicative_inverse().ok_or("zero response")?;
    let sum = times(ch.schnorr_challenge, q) + proof.schnorr_proof.r.to_projective() + times(-proof.schnorr_proof.z2, c.pedersen_h.to_projective());
    proof.halo_g = (times(z1, sum) + times(-b, u)).to_affine();
    Ok(())
}
/// The local opening of the quotient that makes the constraint identity hold for the given openings.
pub fn fix_quotient<C, I>(o: &mut [OpeningSet<C::ScalarField>; 3], s: &Seen<C::ScalarField>, n: usize)
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    let one = C::ScalarField::ONE;
    let vanishing = power(s.zeta, n) - one;
    let l1 = vanishing * (C::ScalarField::from_canonical_usize(n) * (s.zeta - one)).multiplicative_inverse().unwrap();
    let (mut a, mut b) = (o[0].o_plonk_z, o[1].o_plonk_z);
    for j in 0..ROUTED {
        a = a * (o[0].o_wires[j] + s.beta * s.shifts[j] * s.zeta + s.gamma);
        b = b * (o[0].o_wires[j] + s.beta * o[0].o_plonk_sigmas[j] + s.gamma);
    }
    let mut terms = vec![l1 * (o[0].o_plonk_z - one), a - b];
    terms.extend(evaluate_all_constraints::<C, I>(&o[0].o_constants, &o[0].o_wires, &o[1].o_wires, &o[2].o_wires));
    let want = terms.iter().rev().fold(C::ScalarField::ZERO, |acc, &x| acc * s.alpha + x) * vanishing.multiplicative_inverse().unwrap();
    let have = o[0].o_plonk_t.iter().rev().fold(C::ScalarField::ZERO, |acc, &x| acc * (vanishing + one) + x);
    o[0].o_plonk_t[0] = o[0].o_plonk_t[0] + want - have;
}
/// The opening of the public-input quotient that makes its equation hold for the claimed inputs.
pub fn fix_public<C: HaloCurve>(c: &Circuit<C>, pis: &[C::ScalarField], o: &mut [OpeningSet<C::ScalarField>; 3], s: &Seen<C::ScalarField>) {
    let n = c.gate_constants.len();
    let mut values = vec![C::ScalarField::ZERO; n];
    for (k, &x) in pis.iter().enumerate() {
        let i = c.num_gates_without_pis + 2 * (k / WIRES);
        values[i] = values[i] + power(s.alpha, k % WIRES) * x;
    }
    let p = Polynomial::from_evaluations(&values, &c.fft_precomputation_n);
    let gates = (c.num_public_inputs + WIRES - 1) / WIRES;
    let d = (0..gates).fold(C::ScalarField::ONE, |d, i| d * (s.zeta - c.subgroup_n[c.num_gates_without_pis + 2 * i]));
    let w = (0..WIRES).fold(C::ScalarField::ZERO, |a, j| a + power(s.alpha, j) * o[0].o_wires[j]);
    o[0].o_pi_quotient = (w - poly::eval(p.coeffs(), s.zeta)) * d.multiplicative_inverse().unwrap();
}
