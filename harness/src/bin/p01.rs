//! P01: the transforms are evaluation and interpolation on the power-of-two subgroups.
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn naive<F: FieldRef>(c: &[F], n: usize) -> Vec<F> {
    let k = n.trailing_zeros() as usize;
    let w = F::primitive_root_of_unity(k);
    let mut x = F::ONE;
    (0..n)
        .map(|_| {
            let y = poly::eval(c, x);
            x = x * w;
            y
        })
        .collect()
}

fn exact<F: FieldRef>(s: &mut Src) -> Res {
    let len = match s.upto(3) {
        0 => s.range(1, 9),
        1 => {
            let k = s.range(0, 7);
            ((1usize << k) + s.upto(3)).saturating_sub(1).max(1)
        }
        _ => s.size(1, 100),
    };
    let c = coeffs::<F>(s, len);
    let n = len.next_power_of_two();
    s.note(|| format!("{} {}", F::NAME, shows(&c)));
    if c.iter().filter(|x| x.is_nonzero()).count() > 1 {
        s.nontrivial();
    }
    if len == n {
        s.class("power of two");
    }
    let want = naive(&c, n);
    ensure!(fft(&c) == want, "{} fft of {} coefficients", F::NAME, len);
    let pre = fft_precompute::<F>(len);
    ensure_eq!(pre.size(), n, "{} precomputation size", F::NAME);
    ensure!(fft_with_precomputation(&c, &pre) == want, "{} fft_with_precomputation of {}", F::NAME, len);
    let mut padded = c.clone();
    padded.resize(n, F::ZERO);
    ensure!(fft_with_precomputation_power_of_2(&padded, &pre) == want, "{} fft_with_precomputation_power_of_2 of {}", F::NAME, n);
    ensure!(ifft_with_precomputation_power_of_2(&want, &pre) == padded, "{} inverse transform of size {} after the forward one", F::NAME, n);
    // inverse of arbitrary values
    let v = coeffs::<F>(s, n);
    let i = ifft_with_precomputation_power_of_2(&v, &pre);
    ensure_eq!(i.len(), n, "{} inverse transform length", F::NAME);
    ensure!(naive(&i, n) == v, "{} inverse transform of size {} does not interpolate {}", F::NAME, n, shows(&v));
    // polynomial front ends
    let p = Polynomial::from(c.clone());
    ensure!(p.eval_domain(&pre) == want, "{} eval_domain", F::NAME);
    let q = Polynomial::from_evaluations(&v, &pre);
    ensure!(q.coeffs() == &i[..], "{} from_evaluations", F::NAME);
    Ok(())
}

/// Short polynomials on larger domains.
fn extended<F: FieldRef>(s: &mut Src) -> Res {
    let k = s.range(0, 8);
    let n = 1usize << k;
    let len = s.range(0, n);
    let c = coeffs::<F>(s, len);
    let pre = fft_precompute::<F>(n);
    s.note(|| format!("{} {} on 2^{}", F::NAME, shows(&c), k));
    if c.iter().any(|x| x.is_nonzero()) && n > 1 {
        s.nontrivial();
    }
    let p = Polynomial::from(c.clone());
    let want = naive(&c, n);
    ensure!(p.eval_domain(&pre) == want, "{} eval_domain of {} coefficients on 2^{}", F::NAME, len, k);
    ensure!(Polynomial::from_evaluations(&want, &pre) == p, "{} interpolation of an evaluated polynomial", F::NAME);
    // the same precomputation a second time, on other data
    let d = coeffs::<F>(s, n);
    ensure!(fft_with_precomputation(&d, &pre) == naive(&d, n), "{} reused precomputation", F::NAME);
    Ok(())
}

/// Sizes at which the work is split over threads: spot values, round trip, agreement of all paths.
fn large<F: FieldRef>(s: &mut Src) -> Res {
    let k = s.range(11, 14).min(F::TWO_ADICITY);
    let n = 1usize << k;
    let len = if s.bool() { n } else { s.range(n / 2 + 1, n) };
    let c = coeffs::<F>(s, len);
    s.note(|| format!("{} {}", F::NAME, shows(&c)));
    s.nontrivial();
    let pre = fft_precompute::<F>(n);
    let y = fft_with_precomputation(&c, &pre);
    ensure_eq!(y.len(), n, "{} length", F::NAME);
    let w = F::primitive_root_of_unity(k);
    for t in 0..12 {
        let i = match t {
            0 => 0,
            1 => n / 2,
            2 => n - 1,
            _ => s.upto(n),
        };
        ensure!(y[i] == poly::eval(&c, w.exp_usize(i)), "{} fft of {} coefficients at position {}", F::NAME, len, i);
    }
    ensure!(fft(&c) == y, "{} fft without precomputation", F::NAME);
    let mut padded = c.clone();
    padded.resize(n, F::ZERO);
    ensure!(ifft_with_precomputation_power_of_2(&y, &pre) == padded, "{} round trip of 2^{}", F::NAME, k);
    Ok(())
}

fn main() {
    Suite::new("P01", "a case is a field, a size (all small sizes, powers of two and neighbours up to 128, domains to 256, large law 2^11..2^14) and a coefficient or value list (uniform, boundary, sparse, zero-padded, zero); non-trivial = at least two nonzero coefficients (extended law: nonzero polynomial on a domain of two or more)")
        .assume("Horner evaluation at every point of the subgroup is the oracle (large law: at 12 positions, together with the round trip)")
        .law("against evaluation", 25_000, 1_500_000, |s| each_field!(s, exact))
        .law("larger domains", 15_000, 600_000, |s| each_field!(s, extended))
        .law("parallel sizes", 400, 12_000, |s| each_field!(s, large))
        .run()
}
