//! P02: polynomial operations agree with schoolbook arithmetic.
use plonky::plonk_util::{eval_poly, powers, reduce_with_powers};
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn is<F: FieldRef>(what: &str, got: &Polynomial<F>, want: &[F]) -> Res {
    ensure!(poly::trim(got.coeffs()) == poly::trim(want), "{} {}: got {}, expected {}", F::NAME, what, shows(got.coeffs()), shows(want));
    Ok(())
}

fn ring<F: FieldRef>(s: &mut Src) -> Res {
    let (n, m) = (s.tail(0, 40, 600, 300), s.tail(0, 40, 600, 300));
    let (a, b) = (coeffs::<F>(s, n), coeffs::<F>(s, m));
    s.note(|| format!("{} a={} b={}", F::NAME, shows(&a), shows(&b)));
    if poly::trim(&a).len() > 1 && poly::trim(&b).len() > 1 {
        s.nontrivial();
    }
    let (p, q) = (Polynomial::from(a.clone()), Polynomial::from_coeffs(&b));
    is("a + b", &p.add(&q), &poly::add(&a, &b))?;
    is("b + a", &q.add(&p), &poly::add(&a, &b))?;
    let prod = poly::mul(&a, &b);
    is("a * b", &p.mul(&q), &prod)?;
    is("b * a", &q.mul(&p), &prod)?;
    let c = coeffs::<F>(s, n);
    let r = Polynomial::from(c.clone());
    is("a * (b + c)", &p.mul(&q.add(&r)), &poly::add(&prod, &poly::mul(&a, &c)))?;
    // arguments untouched
    ensure!(p.coeffs() == &a[..] && q.coeffs() == &b[..], "{} an operation changed its argument", F::NAME);
    let x = elem::<F>(s);
    ensure!(p.mul(&q).eval(x) == poly::eval(&a, x) * poly::eval(&b, x), "{} product at {}", F::NAME, show(x));
    Ok(())
}

fn single<F: FieldRef>(s: &mut Src) -> Res {
    let n = s.tail(0, 60, 900, 200);
    let a = coeffs::<F>(s, n);
    let x = elem::<F>(s);
    let t = poly::trim(&a);
    let mut p = Polynomial::from(a.clone());
    s.note(|| format!("{} a={} x={}", F::NAME, shows(&a), show(x)));
    if t.len() > 1 && ordinary(x) {
        s.nontrivial();
    }
    if t.len() < a.len() {
        s.class("leading zeros");
    }
    let y = poly::eval(&a, x);
    ensure!(p.eval(x) == y, "{} eval", F::NAME);
    ensure!(eval_poly(&a, x) == y, "{} eval_poly", F::NAME);
    ensure!(reduce_with_powers(&a, x) == y, "{} reduce_with_powers", F::NAME);
    let pw = powers(x, n);
    ensure_eq!(pw.len(), n, "{} powers length", F::NAME);
    let mut z = F::ONE;
    for w in &pw {
        ensure!(*w == z, "{} powers", F::NAME);
        z = z * x;
    }
    ensure!(p.eval_from_power(&pw) == y, "{} eval_from_power", F::NAME);
    ensure_eq!(p.is_zero(), t.is_empty(), "{} is_zero", F::NAME);
    ensure!(p.len() == n && p.is_empty() == (n == 0), "{} len", F::NAME);
    ensure!(p.lead() == t.last().copied().unwrap_or(F::ZERO), "{} lead", F::NAME);
    if t.is_empty() {
        ensure!(catching(|| p.degree()).is_err(), "{} the zero polynomial has a degree", F::NAME);
    } else {
        ensure_eq!(p.degree(), t.len() - 1, "{} degree", F::NAME);
    }
    ensure!(p.iter().copied().collect::<Vec<_>>() == a, "{} iter", F::NAME);
    for (i, &c) in a.iter().enumerate() {
        ensure!(p[i] == c, "{} index", F::NAME);
    }
    let m = t.len() + s.upto(20);
    let padded = p.padded(m);
    ensure!(padded.len() == m && poly::trim(padded.coeffs()) == t, "{} padded({}) of {}", F::NAME, m, shows(&a));
    let mut q = p.clone();
    q.pad(m);
    ensure!(q.coeffs() == padded.coeffs(), "{} pad", F::NAME);
    q.trim();
    ensure!(q.coeffs() == &t[..], "{} trim", F::NAME);
    // padding below the number of significant coefficients is refused, never truncating
    if t.len() > 0 {
        let short = s.upto(t.len());
        let r = catching(|| p.padded(short));
        ensure!(r.is_err(), "{} padded({}) dropped coefficients of {}", F::NAME, short, shows(&a));
    }
    for c in p.iter_mut() {
        *c = *c + F::ONE;
    }
    for i in 0..n {
        ensure!(p[i] == a[i] + F::ONE, "{} iter_mut", F::NAME);
        p[i] = F::TWO;
    }
    ensure!(p.coeffs() == &vec![F::TWO; n][..], "{} index_mut", F::NAME);
    ensure!(Polynomial::<F>::zero(n).coeffs() == &vec![F::ZERO; n][..] && Polynomial::<F>::empty().is_empty(), "{} zero", F::NAME);
    Ok(())
}

fn equality<F: FieldRef>(s: &mut Src) -> Res {
    let n = s.size(0, 12);
    let a = coeffs::<F>(s, n);
    let mut b = a.clone();
    match s.upto(5) {
        0 => b.extend(vec![F::ZERO; s.range(1, 5)]),
        1 => b = poly::trim(&b),
        2 => {
            if n > 0 {
                let k = s.upto(n);
                b[k] = b[k] + elem::<F>(s);
            }
        }
        3 => {
            b.extend(vec![F::ZERO; s.upto(5)]);
            b.push(elem::<F>(s));
        }
        _ => b = coeffs::<F>(s, n),
    }
    let want = poly::trim(&a) == poly::trim(&b);
    s.note(|| format!("{} {} == {}", F::NAME, shows(&a), shows(&b)));
    s.class(if want { "equal" } else { "different" });
    if a != b {
        s.nontrivial();
    }
    let (p, q) = (Polynomial::from(a), Polynomial::from(b));
    ensure!((p == q) == want && (q == p) == want && (p != q) != want, "{} equality", F::NAME);
    Ok(())
}

/// A history of ring operations against schoolbook arithmetic.
fn histories<F: FieldRef>(s: &mut Src) -> Res {
    let mut m: Vec<Vec<F>> = (0..3)
        .map(|_| {
            let n = s.size(0, 12);
            coeffs::<F>(s, n)
        })
        .collect();
    let mut r: Vec<Polynomial<F>> = m.iter().map(|v| Polynomial::from(v.clone())).collect();
    s.note(|| format!("{} {:?}", F::NAME, m.iter().map(|v| shows(v)).collect::<Vec<_>>()));
    let n = s.size(1, 10);
    if n > 2 {
        s.nontrivial();
    }
    for _ in 0..n {
        let (a, b, d) = (s.upto(3), s.upto(3), s.upto(3));
        let op = s.upto(5);
        s.note(|| format!("op{} {} {} -> {}", op, a, b, d));
        let (v, x) = match op {
            0 => (poly::add(&m[a], &m[b]), r[a].add(&r[b])),
            1 if poly::trim(&m[a]).len() + poly::trim(&m[b]).len() < 200 => (poly::mul(&m[a], &m[b]), r[a].mul(&r[b])),
            2 => {
                let mut t = r[a].clone();
                t.trim();
                (m[a].clone(), t)
            }
            3 => (m[a].clone(), r[a].padded(poly::trim(&m[a]).len() + b)),
            _ => (poly::add(&m[a], &m[a]), r[a].add(&r[a])),
        };
        is("history step", &x, &v)?;
        m[d] = v;
        r[d] = x;
    }
    Ok(())
}

fn main() {
    Suite::new("P02", "a case is a field and coefficient lists of length 0..60 (uniform, boundary, sparse, with leading zeros, zero, powers of x); non-trivial = degrees at least 1 and point other than 0, 1, -1; histories of more than two steps; unequal lists for the equality law")
        .assume("schoolbook arithmetic on coefficient lists is the oracle")
        .law("ring operations", 35_000, 2_000_000, |s| each_field!(s, ring))
        .law("single polynomials", 80_000, 3_000_000, |s| each_field!(s, single))
        .law("equality", 100_000, 3_000_000, |s| each_field!(s, equality))
        .law("histories", 15_000, 500_000, |s| each_field!(s, histories))
        .run()
}
