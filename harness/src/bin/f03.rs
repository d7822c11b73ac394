//! F03: square roots, k-th roots, roots of unity and the field's published constants.
use num::bigint::BigUint;
use num::{Integer, One, Zero};
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn euler<F: FieldRef>(a: &BigUint) -> bool {
    let p = p::<F>();
    a.is_zero() || a.modpow(&((p - 1u32) >> 1), p).is_one()
}

fn sqrt<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let a = match s.upto(4) {
        0 => residue(s, i),
        1 => {
            let r = residue(s, i);
            &r * &r % &i.p
        }
        // elements whose 2-primary part has a chosen order: the worst cases of Tonelli-Shanks
        _ => {
            let k = s.range(0, F::TWO_ADICITY);
            let w = big(F::MULTIPLICATIVE_SUBGROUP_GENERATOR).modpow(&((&i.p - 1u32) >> k), &i.p);
            let j = BigUint::from(s.u64());
            let odd = residue(s, i).modpow(&(BigUint::one() << F::TWO_ADICITY), &i.p);
            w.modpow(&j, &i.p) * odd % &i.p
        }
    };
    let x = fe::<F>(&a);
    s.note(|| format!("{} {}", F::NAME, show(x)));
    let qr = euler::<F>(&a);
    s.class(if qr { "square" } else { "non-square" });
    if ordinary(x) {
        s.nontrivial();
    }
    ensure_eq!(x.is_quadratic_residue(), qr, "{} is_quadratic_residue of {}", F::NAME, show(x));
    match x.square_root() {
        Some(r) => ensure!(qr && &big(r) * big(r) % &i.p == a, "{} {} given as the square root of {}", F::NAME, show(r), show(x)),
        None => ensure!(!qr, "{} no square root reported for the square {}", F::NAME, show(x)),
    }
    ensure!(x.square_root() == x.square_root(), "{} square root not deterministic", F::NAME);
    Ok(())
}

fn kth<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let p1 = &i.p - 1u32;
    // k must be coprime to p - 1; every k up to 400 qualifies or is skipped
    let mut k = 1 + s.below(400);
    while !BigUint::from(k).gcd(&p1).is_one() {
        k += 1;
    }
    let a = residue(s, i);
    let x = fe::<F>(&a);
    s.note(|| format!("{} {}^(1/{})", F::NAME, show(x), k));
    if ordinary(x) && k > 1 {
        s.nontrivial();
    }
    let r = x.kth_root(F::from_canonical_u64(k));
    ensure_eq!(big(r).modpow(&BigUint::from(k), &i.p), a, "{} kth_root({})^{}", F::NAME, k, k);
    ensure!(x.kth_root_u32(k as u32) == r, "{} kth_root_u32 differs", F::NAME);
    Ok(())
}

fn unity<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let n = s.range(0, F::TWO_ADICITY);
    s.note(|| format!("{} 2^{}", F::NAME, n));
    if n > 0 {
        s.nontrivial();
    }
    let w = F::primitive_root_of_unity(n);
    let mut v = big(w);
    for k in 0..n {
        ensure!(!v.is_one(), "{} primitive_root_of_unity({}) has order 2^{}", F::NAME, n, k);
        v = &v * &v % &i.p;
    }
    ensure!(v.is_one(), "{} primitive_root_of_unity({}) has a higher order", F::NAME, n);
    // roots for successive sizes are consistent
    if n > 0 {
        let half = F::primitive_root_of_unity(n - 1);
        ensure!(w.square() == half, "{} roots for 2^{} and 2^{} disagree", F::NAME, n, n - 1);
    }
    Ok(())
}

fn subgroups<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let n = s.range(0, 9.min(F::TWO_ADICITY));
    let order = 1usize << n;
    let mut j = s.u64() | 1;
    j %= 1 << 20;
    let w = F::primitive_root_of_unity(n).exp_usize(j as usize);
    s.note(|| format!("{} generator {} of order {}", F::NAME, show(w), order));
    if n > 1 {
        s.nontrivial();
    }
    let want: Vec<BigUint> = (0..order).map(|k| big(w).modpow(&BigUint::from(k), &i.p)).collect();
    let a = F::cyclic_subgroup_unknown_order(w);
    let b = F::cyclic_subgroup_known_order(w, order);
    ensure!(a.iter().map(|&x| big(x)).collect::<Vec<_>>() == want, "{} cyclic_subgroup_unknown_order", F::NAME);
    ensure!(b.iter().map(|&x| big(x)).collect::<Vec<_>>() == want, "{} cyclic_subgroup_known_order", F::NAME);
    // a prefix may be requested
    let m = s.upto(order + 1);
    ensure!(F::cyclic_subgroup_known_order(w, m) == b[..m].to_vec(), "{} prefix of a subgroup", F::NAME);
    Ok(())
}
fn gen_order<F: FieldRef + std::hash::Hash>(s: &mut Src) -> Res {
    let n = s.range(0, 10);
    s.nontrivial();
    let w = F::primitive_root_of_unity(n);
    ensure_eq!(F::generator_order(w), 1usize << n, "{} generator_order", F::NAME);
    ensure_eq!(F::generator_order(F::NEG_ONE), 2, "{} generator_order(-1)", F::NAME);
    Ok(())
}

/// Factor the part of p-1 made of small primes, to test generator claims against.
fn small_factors(mut n: BigUint) -> Vec<u32> {
    let mut out = vec![];
    let mut d = 2u32;
    while d < 20_000 {
        if (&n % d).is_zero() {
            out.push(d);
            while (&n % d).is_zero() {
                n /= d;
            }
        }
        d += 1;
    }
    out
}

fn constants<F: FieldRef>(s: &mut Src) -> Res {
    s.nontrivial();
    s.note(|| F::NAME.to_string());
    let i = info::<F>();
    let p1 = &i.p - 1u32;
    // p = 2^s * T + 1 with T odd
    let t = big(F::T);
    ensure!(t.is_odd(), "{} T is even", F::NAME);
    ensure_eq!(t << F::TWO_ADICITY, p1.clone(), "{} T * 2^TWO_ADICITY", F::NAME);
    // the generator is no r-th power for any small prime r dividing p-1
    let g = big(F::MULTIPLICATIVE_SUBGROUP_GENERATOR);
    for r in small_factors(p1.clone()) {
        ensure!(!g.modpow(&(&p1 / r), &i.p).is_one(), "{} generator lies in the subgroup of index {}", F::NAME, r);
    }
    // x^ALPHA is the least non-trivial power permutation
    let alpha = big(F::ALPHA);
    ensure!(alpha.gcd(&p1).is_one() && !alpha.is_one(), "{} ALPHA", F::NAME);
    let mut k = BigUint::from(2u32);
    while k < alpha {
        ensure!(!k.gcd(&p1).is_one(), "{} ALPHA is not the least exponent: {}", F::NAME, k);
        k += 1u32;
    }
    ensure_eq!(F::BYTES, (i.p.bits() as usize + 7) / 8, "{} BYTES", F::NAME);
    Ok(())
}

fn main() {
    Suite::new("F03", "a case is a field and an element: boundary-heavy residues, squares, and elements whose 2-primary component has a chosen order; exponents k coprime to p-1; subgroup sizes up to the two-adicity; non-trivial = element other than 0, 1, -1 (k > 1, size > 1)")
        .assume("num-bigint modular exponentiation is the oracle")
        .law("constants", 60, 60, |s| each_field!(s, constants))
        .law("square roots", 25_000, 600_000, |s| each_field!(s, sqrt))
        .law("k-th roots", 25_000, 600_000, |s| each_field!(s, kth))
        .law("roots of unity", 6_000, 100_000, |s| each_field!(s, unity))
        .law("subgroups", 4_000, 100_000, |s| each_field!(s, subgroups))
        .law("generator order", 500, 2_000, |s| match s.upto(6) {
            0 => gen_order::<TweedledeeBase>(s),
            1 => gen_order::<TweedledumBase>(s),
            2 => gen_order::<Bls12377Base>(s),
            3 => gen_order::<Bls12377Scalar>(s),
            4 => gen_order::<PallasBase>(s),
            _ => gen_order::<VestaBase>(s),
        })
        .run()
}
