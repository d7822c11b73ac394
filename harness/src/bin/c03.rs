//! C03: multi-scalar multiplication is the sum of the scalar multiplications.
use num::bigint::BigUint;
use num::Zero;
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn msm<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let i = info::<C::ScalarField>();
    let r = &i.p;
    let n = s.size(0, 40);
    let w = match s.upto(5) {
        0 => s.range(1, 4),
        1 => s.range(5, 8),
        2 => s.range(7, 10),
        3 => 11,
        _ => s.range(2, 13),
    };
    let mode = s.upto(4);
    let (mut gens, mut logs): (Vec<ProjectivePoint<C>>, Vec<BigUint>) = (vec![], vec![]);
    let first = point_log::<C>(s);
    for _ in 0..n {
        let (k, q) = match mode {
            0 => point_log::<C>(s),
            // all generators equal, or equal up to sign
            1 => first.clone(),
            2 => {
                if s.bool() {
                    first.clone()
                } else {
                    ((r - &first.0) % r, ref_neg::<C>(first.1))
                }
            }
            _ => C::pool()[s.upto(POOL)].clone(),
        };
        gens.push(proj::<C>(s, q));
        logs.push(k);
    }
    let scalars = |s: &mut Src| -> Vec<BigUint> {
        let mode = s.upto(4);
        let one = residue(s, i);
        (0..n)
            .map(|_| match mode {
                0 => residue(s, i),
                1 => one.clone(),
                2 => {
                    // the same digit in every window
                    let d = s.below(1 << w);
                    let mut v = BigUint::zero();
                    let mut sh = 0;
                    while sh + w < i.p.bits() as usize {
                        v += BigUint::from(d) << sh;
                        sh += w;
                    }
                    v % r
                }
                _ => {
                    if s.bool() {
                        BigUint::from(s.below(1 << w))
                    } else {
                        r - 1u32 - BigUint::from(s.below(1 << w))
                    }
                }
            })
            .collect()
    };
    let want = |ks: &[BigUint]| -> Pt<C> {
        let t = ks.iter().zip(&logs).fold(BigUint::zero(), |acc, (k, l)| (acc + k * l) % r);
        ref_mul::<C>(pt(&C::GENERATOR_AFFINE), &t)
    };
    let (k1, k2) = (scalars(s), scalars(s));
    let f = |ks: &[BigUint]| ks.iter().map(|k| fe::<C::ScalarField>(k)).collect::<Vec<_>>();
    s.note(|| format!("{} w={} logs={:?} scalars={:?} then {:?}", C::CNAME, w, logs, k1, k2));
    if n > 1 {
        s.nontrivial();
    }
    let is = |what: &str, got: ProjectivePoint<C>, want: &Pt<C>| -> Res {
        let g = pt_proj(&got).map_err(|e| format!("{} {} n={} w={}: {}", C::CNAME, what, n, w, e))?;
        ensure!(g == *want, "{} {} n={} w={} is wrong", C::CNAME, what, n, w);
        Ok(())
    };
    let (w1, w2) = (want(&k1), want(&k2));
    let pre = msm_precompute(&gens, w);
    is("msm_execute", msm_execute(&pre, &f(&k1)), &w1)?;
    is("msm_execute_parallel", msm_execute_parallel(&pre, &f(&k1)), &w1)?;
    is("msm_execute_parallel (second use)", msm_execute_parallel(&pre, &f(&k2)), &w2)?;
    is("msm_execute (second use)", msm_execute(&pre, &f(&k2)), &w2)?;
    is("msm_parallel", msm_parallel(&f(&k1), &gens, w), &w1)?;
    Ok(())
}

/// The sizes the proof system uses: hundreds of generators with the default window.
fn large<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let r = p::<C::ScalarField>();
    let n = s.range(100, 400);
    let w = s.range(8, 12);
    let seed = s.u64();
    let pool = C::pool();
    let mut z = seed;
    let mut next = || {
        z = splitmix(z);
        z
    };
    let idx: Vec<usize> = (0..n).map(|_| next() as usize % POOL).collect();
    let gens: Vec<ProjectivePoint<C>> = idx.iter().map(|&j| affine::<C>(pool[j].1).to_projective()).collect();
    let ks: Vec<C::ScalarField> = (0..n).map(|_| if next() % 5 == 0 { C::ScalarField::from_canonical_u64(next() % 9) } else { uniform_from::<C::ScalarField>(next()) }).collect();
    let t = ks.iter().zip(&idx).fold(BigUint::zero(), |acc, (k, &j)| (acc + big(*k) * &pool[j].0) % r);
    let want = ref_mul::<C>(pt(&C::GENERATOR_AFFINE), &t);
    s.note(|| format!("{} n={} w={} seed={}", C::CNAME, n, w, seed));
    s.nontrivial();
    let pre = msm_precompute(&gens, w);
    ensure!(pt_proj(&msm_execute_parallel(&pre, &ks))? == want, "{} large msm_execute_parallel n={} w={}", C::CNAME, n, w);
    ensure!(pt_proj(&msm_execute(&pre, &ks))? == want, "{} large msm_execute n={} w={}", C::CNAME, n, w);
    Ok(())
}

fn main() {
    Suite::new("C03", "a case is a curve, a window width 1..13, up to 40 (large law: 400) generators with known logarithms (repeated, opposite, identity among them) and scalar lists (boundary residues, all equal, equal digits in every window, tiny, near the order); non-trivial = at least two terms")
        .assume("the sum of scalar times logarithm, multiplied out once by the reference double-and-add, is the oracle")
        .law("small and medium", 3_500, 120_000, |s| each_curve!(s, msm))
        .law_t("large", 4, 60, 2_500, |s| each_curve!(s, large))
        .run()
}
