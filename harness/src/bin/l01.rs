//! L01: lookup proofs for genuine subsets always verify.
use plonky::*;
use plookup::plookup::{eval_l_i, padded, prove};
use plookup::verifier::verify;
use vh::gen::*;
use vh::lookup::*;
use vh::refs::*;
use vh::*;

fn small<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 34);
    let f = subset(s, &t, 40);
    complete::<C>(s, t, f)
}
/// Hundreds of values, looked up anywhere in the table.
fn large<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = match s.upto(4) {
        0 => s.range(255, 259),
        1 => s.range(510, 514),
        _ => s.range(100, 600),
    };
    let (salt, few) = (s.u64(), if s.bool() { u64::MAX } else { s.range(50, 500) as u64 });
    let t: Vec<C::ScalarField> = (0..n).map(|i| C::ScalarField::from_canonical_u64(splitmix(salt ^ i as u64) % few)).collect();
    let m = if s.bool() { s.range(1, 40) } else { s.range(40, 600) };
    let salt = s.u64();
    let f: Vec<C::ScalarField> = (0..m).map(|i| t[(splitmix(salt ^ i as u64) % n as u64) as usize]).collect();
    complete::<C>(s, t, f)
}
fn complete<C>(s: &mut Src, t: Vec<C::ScalarField>, f: Vec<C::ScalarField>) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    s.note(|| format!("{} values {} in a table of {}: {}", f.len(), shows(&f), t.len(), shows(&t)));
    if t.len() > 1 {
        s.nontrivial();
    }
    s.class(if f.len() < t.len() { "shorter than the table" } else if f.len() == t.len() { "as long as the table" } else { "longer than the table" });
    if f.len().is_power_of_two() {
        s.class("list of 2^k");
    }
    if t.len().is_power_of_two() {
        s.class("table of 2^k");
    }
    s.seed_code_rng();
    let proof = match catching(|| prove::<C>(&f, &t)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(format!("no proof: {}", e)),
        Err(e) => return Err(format!("prover crashed: {}", e)),
    };
    match catching(|| verify(&t, &proof)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("genuine lookup rejected: {}", e)),
        Err(e) => return Err(format!("verifier crashed: {}", e)),
    }
    // the same proof, checked again
    ensure!(matches!(catching(|| verify(&t, &proof)), Ok(Ok(()))), "rejected the second time");
    // the proof is about this list and this table: the polynomials opened as `f` and `t` go
    // through their values, followed by values of the table
    let n = proof.n;
    ensure!((n + 1).is_power_of_two() && n >= f.len() && n + 1 >= t.len(), "{} values in a table of {} proved with n = {}", f.len(), t.len(), n);
    let zeta = proof.get_challenges().map_err(|e| e.to_string())?.zeta;
    let g = C::ScalarField::primitive_root_of_unity((n + 1).trailing_zeros() as usize);
    let l = [lagrange(n + 1, g, zeta), lagrange(n + 1, g, zeta * g)];
    let o = [proof.openings.t.local, proof.openings.t.right];
    ensure!(
        t.iter().any(|&pad| (0..2).all(|k| dot(&t, &l[k]) + pad * sum(&l[k][t.len()..]) == o[k])),
        "what the proof opens as the table is not the polynomial through it"
    );
    // the last place of the list is unused
    let o = [proof.openings.f.local, proof.openings.f.right];
    let last = |pad, k: usize| (o[k] - dot(&f, &l[k]) - sum(&l[k][f.len()..n]) * pad) / l[k][n];
    ensure!(t.iter().any(|&pad| last(pad, 0) == last(pad, 1)), "what the proof opens as the list is not the polynomial through it");
    Ok(())
}
/// L_i(x) is the polynomial of degree below n that is one at g^i and zero at the other nodes.
fn basis<F: FieldRef>(s: &mut Src) -> Res {
    let k = s.range(0, 6);
    let n = 1usize << k;
    let g = F::primitive_root_of_unity(k);
    let i = s.upto(n);
    let mut node = |j: usize| (0..j).fold(F::ONE, |a, _| a * g);
    let on = s.bool();
    let j = s.upto(n);
    let x = if on { node(j) } else { elem::<F>(s) };
    s.note(|| format!("{} L_{} of {} at {}", F::NAME, i, n, show(x)));
    s.nontrivial();
    let mut want = F::ONE;
    for j in 0..n {
        if j != i {
            want = want * (x - node(j)) / (node(i) - node(j));
        }
    }
    let got = catching(|| eval_l_i(n, i, g, x)).map_err(|e| format!("crash: {}", e))?;
    ensure!(got == want, "{} L_{} of {} at {} is {}, expected {}", F::NAME, i, n, show(x), show(got), show(want));
    let m = s.upto(12);
    let v: Vec<F> = many(s, m);
    let k = s.upto(16);
    let w = padded(&v, k);
    ensure!(w.len() == v.len().max(k) && w[..v.len()] == v[..] && w[v.len()..].iter().all(|x| *x == F::ZERO), "zero padding of {} to {} is {}", shows(&v), k, shows(&w));
    Ok(())
}
fn complete_l(s: &mut Src) -> Res {
    each_halo!(s, small)
}
fn large_l(s: &mut Src) -> Res {
    each_halo!(s, large)
}
fn basis_l(s: &mut Src) -> Res {
    each_field!(s, basis)
}
fn main() {
    Suite::new("L01", "Tables of 1 to 34 (and up to 600) values (distinct, small, extreme, containing zero, with repetitions, constant) and lists of 1 to 40 (and up to 600) of their values (any order and multiplicity) on four curves; sizes around powers of two preferred. Non-trivial: more than one value in the table.")
        .assume("table values fit both fields of the curve (as the prover documents)")
        .law("genuine lookups", 200, 8000, complete_l)
        .law("large tables: genuine lookups", 16, 600, large_l)
        .law("Lagrange basis", 400, 40000, basis_l)
        .run();
}
