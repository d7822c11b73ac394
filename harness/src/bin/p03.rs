//! P03: polynomial division yields the unique quotient and remainder.
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn is<F: FieldRef>(what: &str, got: &Polynomial<F>, want: &[F]) -> Res {
    ensure!(poly::trim(got.coeffs()) == poly::trim(want), "{} {}: got {}, expected {}", F::NAME, what, shows(got.coeffs()), shows(want));
    Ok(())
}

fn judge<F: FieldRef>(s: &mut Src, a: Vec<F>, b: Vec<F>) -> Res {
    let (tb, ta) = (poly::trim(&b), poly::trim(&a));
    if tb.is_empty() {
        s.discarded = true;
        return Ok(());
    }
    s.note(|| format!("{} {} / {}", F::NAME, shows(&a), shows(&b)));
    if tb.len() > 1 && ta.len() >= tb.len() {
        s.nontrivial();
    }
    if tb.len() < b.len() {
        s.class("divisor with leading zeros");
    }
    if ta.is_empty() {
        s.class("zero dividend");
    }
    let (q, r) = poly::divide(&a, &b);
    let (p, d) = (Polynomial::from(a.clone()), Polynomial::from(b.clone()));
    let (q1, r1) = p.polynomial_division(&d);
    is("polynomial_division quotient", &q1, &q)?;
    is("polynomial_division remainder", &r1, &r)?;
    let (q2, r2) = p.polynomial_long_division(&d);
    is("polynomial_long_division quotient", &q2, &q)?;
    is("polynomial_long_division remainder", &r2, &r)?;
    ensure!(p.coeffs() == &a[..] && d.coeffs() == &b[..], "{} division changed its argument", F::NAME);
    Ok(())
}

fn general<F: FieldRef>(s: &mut Src) -> Res {
    let (n, m) = (s.size(0, 48), s.size(1, 30));
    let (a, b) = (coeffs::<F>(s, n), coeffs::<F>(s, m));
    judge(s, a, b)
}
/// Exact and nearly exact multiples, where quotients and remainders have zero coefficients.
fn multiples<F: FieldRef>(s: &mut Src) -> Res {
    let (n, m, k) = (s.size(0, 30), s.size(1, 20), s.size(0, 20));
    let (q, b, r) = (coeffs::<F>(s, n), coeffs::<F>(s, m), coeffs::<F>(s, k));
    let mut a = poly::mul(&q, &b);
    if s.bool() {
        a = poly::add(&a, &r);
    }
    a.extend(vec![F::ZERO; s.upto(4)]);
    judge(s, a, b)
}
/// Divisors the provers use: linear, products of two linear factors, x^n - 1.
fn special<F: FieldRef>(s: &mut Src) -> Res {
    let one = |x: F| vec![F::ZERO - x, F::ONE];
    let n = s.size(0, 64);
    let mut a = coeffs::<F>(s, n);
    let b = match s.upto(3) {
        0 => one(elem::<F>(s)),
        1 => {
            let (x, y) = (elem::<F>(s), elem::<F>(s));
            poly::mul(&one(x), &one(y))
        }
        _ => {
            let k = s.range(1, 33);
            let mut v = vec![F::ZERO; k + 1];
            v[0] = F::NEG_ONE;
            v[k] = F::ONE;
            v
        }
    };
    if s.chance(1, 3) {
        // x^n - 1 itself as the dividend
        a = vec![F::ZERO; n + 1];
        a[0] = F::NEG_ONE;
        a[n] = a[n] + F::ONE;
    }
    judge(s, a, b)
}
fn vanishing<F: FieldRef>(s: &mut Src) -> Res {
    let n = match s.upto(3) {
        0 => 1usize << s.range(0, 6),
        1 => (1usize << s.range(0, 6)) + 1,
        _ => s.range(1, 50),
    };
    let m = s.size(0, 80);
    let q = coeffs::<F>(s, m);
    // multiple of x^n - 1 by shifting
    let mut a = vec![F::ZERO; n + m];
    for (i, &c) in q.iter().enumerate() {
        a[i + n] = a[i + n] + c;
        a[i] = a[i] - c;
    }
    a.extend(vec![F::ZERO; s.upto(4)]);
    s.note(|| format!("{} {} * (x^{} - 1)", F::NAME, shows(&q), n));
    if poly::trim(&q).len() > 1 {
        s.nontrivial();
    }
    if poly::trim(&q).is_empty() {
        s.class("zero");
    }
    let p = Polynomial::from(a.clone());
    is("divide_by_z_h", &p.divide_by_z_h(n), &q)?;
    ensure!(p.coeffs() == &a[..], "{} division changed its argument", F::NAME);
    Ok(())
}
/// Sizes at which the fast algorithm's transforms are long.
fn large<F: FieldRef>(s: &mut Src) -> Res {
    let (n, m) = (s.range(300, 1200), s.range(1, 600));
    let (a, b) = (coeffs::<F>(s, n), coeffs::<F>(s, m));
    judge(s, a, b)
}

fn main() {
    Suite::new("P03", "a case is a field, a dividend (length 0..48, large law to 1200) and a nonzero divisor: independent shapes, exact or nearly exact multiples with sparse cofactors, linear and quadratic divisors with chosen roots, x^n - 1 on either side, leading zeros on both; non-trivial = divisor of degree at least 1 not exceeding the dividend's (cofactor of degree at least 1 for x^n - 1)")
        .assume("pencil-and-paper division on coefficient lists is the oracle")
        .law("general", 25_000, 1_500_000, |s| each_field!(s, general))
        .law("multiples", 25_000, 1_500_000, |s| each_field!(s, multiples))
        .law("special divisors", 15_000, 1_000_000, |s| each_field!(s, special))
        .law("vanishing polynomials", 40_000, 1_500_000, |s| each_field!(s, vanishing))
        .law("large", 300, 10_000, |s| each_field!(s, large))
        .run()
}
