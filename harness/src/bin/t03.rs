//! T03: every proof message is bound into the challenges that follow it.
use plonky::plonk_util::permutation_polynomial;
use plonky::polynomial::Polynomial;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::refs::*;
use vh::*;

const POOL: usize = 16;

struct Case<C: HaloCurve> {
    p: Proof<C>,
    pis: Vec<C::ScalarField>,
    old: Vec<OldProof<C>>,
}
impl<C: HaloCurve> Case<C> {
    fn copy(&self) -> Self {
        Case { p: self.p.clone(), pis: self.pis.clone(), old: self.old.clone() }
    }
}
/// Challenges with the stage at which they are drawn.
fn drawn<C: HaloCurve>(c: &Case<C>) -> Result<Vec<(usize, String, C::ScalarField)>, String> {
    let h = catching(|| c.p.get_challenges(&c.pis, &c.old)).map_err(|e| format!("panic: {}", e))?.map_err(|e| e.to_string())?;
    let mut v = vec![
        (1, "beta".to_string(), h.beta),
        (1, "gamma".to_string(), h.gamma),
        (2, "alpha".to_string(), h.alpha),
        (3, "zeta".to_string(), h.zeta),
        (4, "v".to_string(), h.v),
        (4, "u".to_string(), h.u),
        (4, "u_scaling".to_string(), h.u_scaling),
    ];
    let n = h.halo_us.len();
    v.extend(h.halo_us.iter().enumerate().map(|(j, &u)| (5 + j, format!("round {}", j), u)));
    v.push((5 + n, "schnorr".to_string(), h.schnorr_challenge));
    Ok(v)
}
/// Random messages of the right shape, with as many rounds as asked for.
fn fill<C>(s: &mut Src, c: &mut Case<C>, rounds: usize) -> bool
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    if s.bool() {
        for (_, l) in points_mut(&mut c.p) {
            for x in l {
                *x = aff::<C>(point::<C>(s));
            }
        }
        for (_, l) in scalars_mut(&mut c.p) {
            for x in l {
                *x = uniform(s);
            }
        }
        s.class("random messages");
    }
    c.p.halo_l.clear();
    c.p.halo_r.clear();
    extend(s, c, rounds)
}
/// Append rounds whose challenges exist.
fn extend<C>(s: &mut Src, c: &mut Case<C>, rounds: usize) -> bool
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    for _ in 0..rounds {
        c.p.halo_l.push(C::GENERATOR_AFFINE);
        c.p.halo_r.push(C::GENERATOR_AFFINE);
        let j = c.p.halo_l.len() - 1;
        let mut found = false;
        for _ in 0..40 {
            c.p.halo_l[j] = aff::<C>(point::<C>(s));
            c.p.halo_r[j] = aff::<C>(point::<C>(s));
            if drawn(c).is_ok() {
                found = true;
                break;
            }
        }
        if !found {
            return false;
        }
    }
    true
}
fn list<F: FieldRef>(s: &mut Src, v: &mut Vec<F>) -> &'static str {
    let n = v.len();
    match s.upto(5) {
        0 if n > 0 => {
            let i = s.upto(n);
            v[i] = elem(s);
            "replaced"
        }
        1 if n > 0 => {
            let i = s.upto(n);
            v[i] = v[i] + F::ONE;
            "incremented"
        }
        2 if n > 1 => {
            v.swap(s.upto(n), s.upto(n));
            "reordered"
        }
        3 if n > 0 => {
            v.remove(s.upto(n));
            "dropped"
        }
        _ => {
            let x = elem(s);
            v.insert(s.upto(n + 1), x);
            "added"
        }
    }
}
fn pts<C>(s: &mut Src, mut v: Vec<&mut AffinePoint<C>>) -> &'static str
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = v.len();
    let i = s.upto(n);
    match s.upto(4) {
        0 => {
            *v[i] = aff::<C>(any_point::<C>(s));
            "replaced"
        }
        1 => {
            *v[i] = -*v[i];
            "negated"
        }
        2 if n > 1 => {
            let j = s.upto(n);
            let t = *v[j];
            *v[j] = *v[i];
            *v[i] = t;
            "reordered"
        }
        _ => {
            *v[i] = AffinePoint::<C>::ZERO;
            "made the identity"
        }
    }
}
fn bound<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let mut a = Case { p: m.proof.clone(), pis: m.i.pis.clone(), old: m.old.clone() };
    let rounds = s.tail(0, 3, 14, 12);
    if !fill(s, &mut a, rounds) {
        s.discarded = true;
        return Ok(());
    }
    let before = match drawn(&a) {
        Ok(x) => x,
        Err(_) => {
            s.discarded = true;
            return Ok(());
        }
    };
    ensure!(drawn(&a)? == before, "challenges of the same messages differ");
    let mut b = a.copy();
    // the stage of the first challenge that follows the altered message
    let (stage, name, how) = match s.upto(13) {
        0 | 1 => {
            let how = list(s, &mut b.pis);
            if b.pis.iter().any(|&x| !fits::<C>(x)) {
                s.discarded = true;
                return Ok(());
            }
            (1, "public inputs", how)
        }
        2 => (1, "c_wires", pts(s, b.p.c_wires.iter_mut().collect())),
        3 => (2, "c_plonk_z", pts(s, vec![&mut b.p.c_plonk_z])),
        4 => (3, "c_plonk_t", pts(s, b.p.c_plonk_t.iter_mut().collect())),
        5 => (3, "c_pis_quotient", pts(s, vec![&mut b.p.c_pis_quotient])),
        6 if !b.old.is_empty() => (3, "old proofs' points", pts(s, b.old.iter_mut().map(|o| &mut o.halo_g).collect())),
        7 if !b.old.is_empty() => {
            let i = s.upto(b.old.len());
            let how = list(s, &mut b.old[i].halo_us);
            (3, "old proofs' challenges", how)
        }
        8 => {
            let how = match s.upto(3) {
                0 if !b.old.is_empty() => {
                    b.old.remove(s.upto(m.old.len()));
                    "dropped"
                }
                1 if b.old.len() > 1 => {
                    b.old.reverse();
                    "reordered"
                }
                _ => {
                    b.old.push(made::<C, I>(0).pending.clone());
                    "added"
                }
            };
            (3, "old proofs", how)
        }
        9 | 10 | 11 => {
            let k = s.upto(3);
            let o = &mut *sets_mut(&mut b.p)[k];
            let how = match s.upto(7) {
                0 => list(s, &mut o.o_constants),
                1 => list(s, &mut o.o_plonk_sigmas),
                2 => list(s, &mut o.o_wires),
                3 => list(s, &mut o.o_plonk_t),
                4 => list(s, &mut o.o_old_proofs),
                5 => {
                    o.o_plonk_z = elem(s);
                    "replaced"
                }
                _ => {
                    o.o_pi_quotient = elem(s);
                    "replaced"
                }
            };
            // a value moved between the lists is the same sequence of values
            if o.to_vec() == { let mut p = a.p.clone(); sets_mut(&mut p)[k].to_vec() } {
                s.discarded = true;
                return Ok(());
            }
            (4, ["local openings", "right openings", "below openings"][k], how)
        }
        12 if rounds > 0 => {
            let j = s.upto(rounds);
            let how = if s.bool() { pts(s, vec![&mut b.p.halo_l[j]]) } else { pts(s, vec![&mut b.p.halo_r[j]]) };
            (5 + j, "round messages", how)
        }
        _ => (5 + rounds, "schnorr r", pts(s, vec![&mut b.p.schnorr_proof.r])),
    };
    if same(&a.p, &b.p) && a.pis == b.pis && a.old.len() == b.old.len() && a.old.iter().zip(&b.old).all(|(x, y)| x.halo_g == y.halo_g && x.halo_us == y.halo_us) {
        s.discarded = true;
        return Ok(());
    }
    s.note(|| format!("{} {}, {} rounds", name, how, rounds));
    s.nontrivial();
    s.class(name);
    // later rounds may have no challenge for these messages: then take other messages for them
    let upto = if stage >= 5 { (stage - 5).min(rounds) } else { 0 };
    let (mut a2, mut b2) = (a.copy(), b.copy());
    let whole = drawn(&b);
    let mut stage = stage;
    let (before, after) = match whole {
        Ok(x) => (before, x),
        Err(_) => {
            // the challenges drawn before the rounds, and the rounds before the alteration
            a2.p.halo_l.truncate(upto);
            a2.p.halo_r.truncate(upto);
            b2.p.halo_l.truncate(upto);
            b2.p.halo_r.truncate(upto);
            if stage >= 5 && stage < 5 + rounds {
                // the altered message is gone; that its round has no challenge now shows it counted
                stage = usize::MAX;
            }
            match (drawn(&a2), drawn(&b2)) {
                (Ok(x), Ok(y)) => (x, y),
                (_, Err(e)) => {
                    // values that do not fit the other field
                    s.class("no challenges");
                    s.discarded = true;
                    let _ = e;
                    return Ok(());
                }
                (Err(e), _) => return Err(format!("challenges for fewer rounds: {}", e)),
            }
        }
    };
    for (x, y) in before.iter().zip(&after) {
        if x.1 != y.1 {
            return Err(format!("challenge {} in place of {}", y.1, x.1));
        }
        // with fewer rounds the last challenge follows the messages of another stage
        if x.0 >= stage {
            ensure!(x.2 != y.2, "challenge {} is the same after {} {}", x.1, name, how);
        } else {
            ensure!(x.2 == y.2, "challenge {} depends on the later {} {}", x.1, name, how);
        }
    }
    Ok(())
}
/// The recomputed challenges are the ones the prover used.
fn used<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let bits = if s.bool() { 128 } else { 2 * s.range(50, 90) };
    let i = instance::<C, I>(s, Size { steps: 6, publics: 6, gadgets: false, bits });
    let c = &i.c;
    let n = c.degree();
    let mut old = vec![];
    for _ in 0..s.size(0, 2) {
        let m = made::<C, I>(2 * s.upto(POOL / 2));
        if m.i.c.degree() <= n {
            old.push(m.pending.clone());
        }
    }
    let p = c.generate_proof::<I>(&i.w, &old, s.bool()).map_err(|e| e.to_string())?;
    let h = p.get_challenges_with_security(&i.pis, &old, bits).map_err(|e| e.to_string())?;
    s.nontrivial();
    let g = c.subgroup_generator_n;
    let mut below = h.zeta;
    for _ in 0..GRID {
        below = below * g;
    }
    let z = permutation_polynomial(n, &c.subgroup_n, &i.w, &c.s_sigma_values_8n, h.beta, h.gamma);
    let z = Polynomial::from_evaluations(&z, &c.fft_precomputation_n);
    let wires: Vec<Polynomial<C::ScalarField>> = (0..WIRES).map(|j| Polynomial::from_evaluations(&(0..n).map(|r| i.w.get_indices(r, j)).collect::<Vec<_>>(), &c.fft_precomputation_n)).collect();
    for (name, o, x) in [("local", &p.o_local, h.zeta), ("right", &p.o_right, h.zeta * g), ("below", &p.o_below, below)].iter() {
        let e = |v: &[Polynomial<C::ScalarField>]| -> Vec<C::ScalarField> { v.iter().map(|p| poly::eval(p.coeffs(), *x)).collect() };
        ensure!(o.o_constants == e(&c.constant_polynomials), "{} openings of the constants are not their values at the recomputed zeta", name);
        ensure!(o.o_plonk_sigmas == e(&c.s_sigma_polynomials), "{} openings of the permutation are not its values at the recomputed zeta", name);
        ensure!(o.o_wires == e(&wires), "{} openings of the wires are not their values at the recomputed zeta", name);
        ensure!(o.o_plonk_z == poly::eval(z.coeffs(), *x), "{} opening of the accumulator is not the one for the recomputed beta and gamma", name);
        let want: Vec<C::ScalarField> = old.iter().map(|p| poly::eval(&p.coeffs(), *x)).collect();
        ensure!(o.o_old_proofs == want, "{} openings of the old proofs are not their values at the recomputed zeta", name);
    }
    // alpha, through the public-input quotient: sum_j alpha^j w_j(zeta) - inputs = quotient * denominator
    let mut values = vec![C::ScalarField::ZERO; n];
    let mut power = vec![C::ScalarField::ONE];
    for _ in 1..WIRES {
        power.push(power[power.len() - 1] * h.alpha);
    }
    let mut d = C::ScalarField::ONE;
    for (k, &x) in i.pis.iter().enumerate() {
        let row = c.num_gates_without_pis + 2 * (k / WIRES);
        values[row] = values[row] + power[k % WIRES] * x;
        if k % WIRES == 0 {
            d = d * (h.zeta - c.subgroup_n[row]);
        }
    }
    let at = poly::eval(Polynomial::from_evaluations(&values, &c.fft_precomputation_n).coeffs(), h.zeta);
    let sum = p.o_local.o_wires.iter().zip(&power).fold(C::ScalarField::ZERO, |a, (&w, &k)| a + w * k);
    ensure!(sum - at == p.o_local.o_pi_quotient * d, "the public-input quotient is not the one for the recomputed alpha");
    // the round challenges fold the generators
    ensure!(1 << h.halo_us.len() == n, "{} round challenges for {} rows", h.halo_us.len(), n);
    let o = OldProof::<C> { halo_g: p.halo_g, halo_us: h.halo_us.clone() };
    let folded = msm_parallel(&o.coeffs(), &AffinePoint::batch_to_projective(&c.pedersen_g), 8).to_affine();
    ensure!(folded == p.halo_g, "the folded generator is not the one for the recomputed round challenges");
    Ok(())
}
fn bound_l(s: &mut Src) -> Res {
    each_pair!(s, bound)
}
fn used_l(s: &mut Src) -> Res {
    each_pair!(s, used)
}
fn main() {
    Suite::new("T03", "Messages of honest proofs (all curve pairs, 0 to 3 accumulated proofs) or random ones of the same shape, with 0 to 3 rounds; one public input, commitment, old proof, opened value, round message or Schnorr commitment replaced, incremented, negated, reordered, dropped or added. Every challenge drawn after the altered message must differ, every one before must not. Honest proofs of random circuits and security levels: openings, accumulator, public-input quotient and folded generator recomputed from the recomputed challenges. Non-trivial: the sequence of messages really differs.")
        .assume("two different messages give the same challenge with negligible probability")
        .law("challenges depend on every earlier message and on no later one", 600, 30000, bound_l)
        .law("recomputed challenges are the prover's", 100, 2000, used_l)
        .run();
}
