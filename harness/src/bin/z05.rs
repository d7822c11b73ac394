//! Z05: deferred verification and accumulation.
use plonky::plonk_util::{commit_polynomials, halo_g, halo_s};
use plonky::polynomial::Polynomial;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::prover::*;
use vh::refs::*;
use vh::*;

const SIZE: Size = Size { steps: 5, publics: 4, gadgets: false, bits: 128 };
const POOL: usize = 12;
type V<C> = Result<Option<OldProof<C>>, String>;

fn verify<C, I>(c: &Circuit<C>, pis: &[C::ScalarField], p: &Proof<C>, old: &[OldProof<C>], complete: bool) -> V<C>
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    let mut vk = c.to_vk();
    vk.clear_msm_precomputation();
    match catching(|| verify_proof::<C, I>(pis, p, old, &vk, complete)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("panic: {}", e)),
    }
}
/// A pending check holds if its point commits to the polynomial its challenges define.
fn genuine<C: HaloCurve>(o: &OldProof<C>) -> bool {
    let n = 1 << o.halo_us.len();
    let g: Vec<AffinePoint<C>> = (0..n).map(blake_hash_usize_to_curve::<C>).collect();
    msm_parallel(&reference_s(&o.halo_us), &AffinePoint::batch_to_projective(&g), 8).to_affine() == o.halo_g
}
/// Coefficients of prod_j (u_j^-1 + u_j X^(2^(k-1-j))).
fn reference_s<F: Field>(us: &[F]) -> Vec<F> {
    let mut v = vec![F::ONE];
    for &u in us {
        let i = u.multiplicative_inverse().expect("nonzero");
        // the first challenge separates the halves
        v = v.into_iter().flat_map(|x| vec![x * i, x * u]).collect();
    }
    v
}
fn rows<C: HaloCurve>(i: &Inst<C>) -> Vec<Vec<C::ScalarField>> {
    (0..i.c.degree()).map(|k| wire_row(&i.w, k)).collect()
}
/// Chains of honest proofs, each accumulating any of the earlier ones.
fn chain<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let len = s.range(2, 4);
    let mut pending: Vec<(usize, OldProof<C>)> = vec![];
    let mut shared: Option<Inst<C>> = None;
    for step in 0..len {
        let i = match shared.take() {
            Some(i) if s.bool() => i,
            _ => instance::<C, I>(s, SIZE),
        };
        let n = i.c.degree();
        let fitting: Vec<&(usize, OldProof<C>)> = pending.iter().filter(|x| x.0 <= n).collect();
        let mut old = vec![];
        if !fitting.is_empty() {
            for _ in 0..s.size(0, 5) {
                old.push(s.pick(&fitting).1.clone());
            }
        }
        s.note(|| format!("step {}: {} rows, {} public inputs, accumulates {}", step, n, i.pis.len(), old.len()));
        if !old.is_empty() {
            s.nontrivial();
        }
        let p = i.c.generate_proof::<I>(&i.w, &old, s.bool()).map_err(|e| format!("step {}: {}", step, e))?;
        match verify::<C, I>(&i.c, &i.pis, &p, &old, false) {
            Ok(Some(o)) => {
                ensure!(o.halo_g == p.halo_g, "step {}: pending point is not the proof's", step);
                ensure!(1 << o.halo_us.len() == n, "step {}: {} challenges pending for {} rows", step, o.halo_us.len(), n);
                ensure!(genuine(&o), "step {}: pending check of an honest proof does not hold", step);
                let x = elem::<C::ScalarField>(s);
                let c = reference_s(&o.halo_us);
                ensure!(o.coeffs() == c, "step {}: coefficients {} expected {}", step, shows(&o.coeffs()), shows(&c));
                ensure!(o.evaluate_g(x) == poly::eval(&c, x), "step {}: value at {} is {}", step, show(x), show(o.evaluate_g(x)));
                pending.push((n, o));
            }
            Ok(None) => return Err(format!("step {}: nothing returned by deferred verification", step)),
            Err(e) => return Err(format!("step {} accumulating {}: {}", step, old.len(), e)),
        }
        match verify::<C, I>(&i.c, &i.pis, &p, &old, true) {
            Ok(None) => {}
            Ok(Some(_)) => return Err(format!("step {}: complete verification returned pending work", step)),
            Err(e) => return Err(format!("step {} accumulating {}, completely: {}", step, old.len(), e)),
        }
        shared = Some(i);
    }
    Ok(())
}
/// Accumulated checks altered between proving and verifying.
fn altered<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(2 * s.upto(POOL / 2) + 1);
    if m.old.is_empty() {
        s.discarded = true;
        return Ok(());
    }
    for _ in 0..4 {
        let mut old = m.old.clone();
        let mut p = m.proof.clone();
        let i = s.upto(old.len());
        let k = old[i].halo_us.len();
        let what = match s.upto(10) {
            0 => {
                old.remove(i);
                "dropped"
            }
            1 => {
                old.insert(s.upto(m.old.len() + 1), made::<C, I>(2 * s.upto(POOL / 2)).pending.clone());
                "added"
            }
            2 => {
                let j = s.upto(old.len());
                old.swap(i, j);
                "reordered"
            }
            3 => {
                old[i] = made::<C, I>(2 * s.upto(POOL / 2)).pending.clone();
                "replaced"
            }
            4 => {
                old[i].halo_g = aff::<C>(any_point::<C>(s));
                "point replaced"
            }
            5 => {
                let j = s.upto(k);
                old[i].halo_us[j] = nonzero(s);
                "challenge replaced"
            }
            6 => {
                old[i].halo_us.swap(s.upto(k), s.upto(k));
                "challenges reordered"
            }
            7 => {
                // one that gives the same value where the verifier looks
                let z = m.proof.get_challenges(&m.i.pis, &m.old).map_err(|e| e.to_string())?.zeta;
                let j = s.upto(k);
                let x = (j + 1..k).fold(z, |x, _| x.square());
                let u = (old[i].halo_us[j] * x).multiplicative_inverse().ok_or("zero")?;
                let before = halo_g(z, &old[i].halo_us);
                old[i].halo_us[j] = u;
                ensure!(before == halo_g(z, &old[i].halo_us), "halo_g({}) is not the product over its challenges", show(z));
                "challenge replaced by the other one with the same value"
            }
            8 => {
                // with its opening
                old.remove(i);
                for o in sets_mut(&mut p) {
                    o.o_old_proofs.remove(i);
                }
                "dropped with its opening"
            }
            _ => {
                old.push(made::<C, I>(0).pending.clone());
                let z = m.proof.get_challenges(&m.i.pis, &m.old).map_err(|e| e.to_string())?.zeta;
                let v = old[old.len() - 1].evaluate_g(z);
                for o in sets_mut(&mut p) {
                    o.o_old_proofs.push(v);
                }
                "added with its opening"
            }
        };
        if old.len() == m.old.len() && old.iter().zip(&m.old).all(|(a, b)| a.halo_g == b.halo_g && (a.halo_us == b.halo_us)) {
            continue;
        }
        s.nontrivial();
        s.class(what);
        if verify::<C, I>(&m.i.c, &m.i.pis, &p, &old, false).is_ok() {
            return Err(format!("accepted with old proof {} of {} {}", i, m.old.len(), what));
        }
    }
    Ok(())
}
/// A false proof whose check is still pending never survives.
fn forged<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    // a false proof that deferred verification cannot tell
    let a = instance::<C, I>(s, SIZE);
    let n = a.c.degree();
    let mut r = rows(&a);
    let (i, j) = (s.upto(n), s.upto(WIRES));
    r[i][j] = elem(s);
    let lie = |o: &mut [OpeningSet<C::ScalarField>; 3], seen: &Seen<C::ScalarField>| {
        o[0].o_wires[0] = o[0].o_wires[0] + C::ScalarField::ONE;
        let pis: Vec<C::ScalarField> = (0..a.pis.len()).map(|k| r[a.c.num_gates_without_pis + 2 * (k / WIRES)][k % WIRES]).collect();
        fix_public(&a.c, &pis, o, seen);
        fix_quotient::<C, I>(o, seen, n);
    };
    let (p, pis) = match prove::<C, I>(&a.c, &r, &[], &Plan { openings: Some(&lie), fold: true, ..Plan::default() }) {
        Ok(x) => x,
        Err(_) => {
            s.discarded = true;
            return Ok(());
        }
    };
    let bad = match verify::<C, I>(&a.c, &pis, &p, &[], false) {
        Ok(Some(o)) => o,
        _ => {
            s.discarded = true;
            return Ok(());
        }
    };
    s.nontrivial();
    ensure!(bad.halo_g == p.halo_g, "pending point is not the proof's");
    ensure!(!genuine(&bad), "the pending check of a false proof holds");
    ensure!(verify::<C, I>(&a.c, &pis, &p, &[], true).is_err(), "a false proof was accepted completely");
    // accumulated among genuine ones
    let b = instance::<C, I>(s, SIZE);
    let n = b.c.degree();
    let mut old: Vec<OldProof<C>> = vec![];
    for _ in 0..s.size(0, 6) {
        let m = made::<C, I>(2 * s.upto(POOL / 2));
        if m.i.c.degree() <= n {
            old.push(m.pending.clone());
        }
    }
    if 1 << bad.halo_us.len() > n {
        s.discarded = true;
        return Ok(());
    }
    let at = s.upto(old.len() + 1);
    old.insert(at, bad.clone());
    s.note(|| format!("{} old proofs, the false one at {}", old.len(), at));
    match s.upto(3) {
        0 => {
            s.class("honest accumulation");
            if let Ok(Ok(p)) = catching(|| b.c.generate_proof::<I>(&b.w, &old, s.bool())) {
                ensure!(verify::<C, I>(&b.c, &b.pis, &p, &old, false).is_err(), "a proof accumulating a false pending check was accepted");
            }
        }
        1 => {
            // a polynomial with the right value at zeta cannot be chosen: the point is sent before
            s.class("other polynomial");
            let mut polys: Vec<Vec<C::ScalarField>> = old.iter().map(|o| o.coeffs()).collect();
            let mut v = coeffs::<C::ScalarField>(s, n);
            v.resize(n, C::ScalarField::ZERO);
            let g = commit_polynomials(&[Polynomial::from(v.clone())], &b.c.pedersen_g_msm_precomputation, b.c.pedersen_h, false)[0].to_affine();
            let mut old = old.clone();
            old[at] = OldProof { halo_g: g, halo_us: bad.halo_us.clone() };
            polys[at] = v;
            if halo_s(&bad.halo_us) == polys[at] {
                s.discarded = true;
                return Ok(());
            }
            // claimed to open to what the verifier expects, and to what it is
            let claim = s.bool();
            let expected = old[at].clone();
            let lie = |o: &mut [OpeningSet<C::ScalarField>; 3], seen: &Seen<C::ScalarField>| {
                if claim {
                    o[0].o_old_proofs[at] = expected.evaluate_g(seen.zeta);
                }
            };
            if let Ok((p, pis)) = prove::<C, I>(&b.c, &rows(&b), &old, &Plan { openings: Some(&lie), old: Some(polys), ..Plan::default() }) {
                ensure!(verify::<C, I>(&b.c, &pis, &p, &old, false).is_err(), "a proof accumulating a false pending check was accepted");
            }
        }
        _ => {
            // forging on moves the falsehood to the new pending check
            s.class("forged again");
            if let Ok((p, pis)) = prove::<C, I>(&b.c, &rows(&b), &old, &Plan { fold: true, ..Plan::default() }) {
                ensure!(verify::<C, I>(&b.c, &pis, &p, &old, true).is_err(), "a forged accumulation was accepted completely");
                if let Ok(Some(o)) = verify::<C, I>(&b.c, &pis, &p, &old, false) {
                    s.class("forged again, pending");
                    ensure!(!genuine(&o), "a false pending check became genuine");
                }
            }
        }
    }
    Ok(())
}
fn chain_l(s: &mut Src) -> Res {
    each_pair!(s, chain)
}
fn altered_l(s: &mut Src) -> Res {
    each_pair!(s, altered)
}
fn forged_l(s: &mut Src) -> Res {
    each_pair!(s, forged)
}
fn main() {
    Suite::new("Z05", "Chains of two to four random circuits (4 to 64 rows, same or different sizes, all curve pairs), each proof accumulating up to five earlier pending checks with repetitions; accumulated checks dropped, added, reordered, replaced, with altered points or challenges (one chosen to agree where the verifier looks) between proving and verifying; false proofs with a folded generator solved for, pending, then accumulated honestly, under another polynomial, or forged again. Non-trivial: something is accumulated, and it is altered or false.")
        .assume("accumulated checks are of circuits no larger than the accumulating one")
        .law("chains of honest proofs verify", 100, 2000, chain_l)
        .law("altered accumulated checks are rejected", 200, 8000, altered_l)
        .law("false pending checks are found out", 160, 4000, forged_l)
        .run();
}
