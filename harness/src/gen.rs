//! Generators shared by the checks.
use crate::refs::*;
use crate::Src;
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::*;

/// A limb pattern of `n` limbs biased to carries and borrows: zero, one, all-ones, top-bit, the
/// modulus' own limbs, neighbours of those, random.
pub fn limb_pattern(s: &mut Src, n: usize, modulus: &BigUint) -> BigUint {
    let m = big_to_limbs(modulus, n);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(match s.weighted(&[3, 2, 3, 1, 2, 1, 1, 4]) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => m[i],
            5 => m[i].wrapping_sub(1),
            6 => m[i].wrapping_add(1),
            _ => s.u64(),
        });
    }
    limbs_to_big(&v)
}

/// An integer below `modulus` (which has `n` limbs), with all the usual boundary values likely.
pub fn residue(s: &mut Src, i: &Info) -> BigUint {
    let p = &i.p;
    match s.weighted(&[3, 2, 5, 5, 5, 2, 2]) {
        0 => BigUint::from(s.below(20)),
        1 => p - 1u32 - BigUint::from(s.below(20)),
        2 => {
            let v: Vec<u64> = (0..i.limbs + 1).map(|_| s.u64()).collect();
            limbs_to_big(&v) % p
        }
        3 => limb_pattern(s, i.limbs, p) % p,
        // extreme pattern of the Montgomery representation
        4 => (limb_pattern(s, i.limbs, p) % p) * &i.r_inv % p,
        5 => {
            let k = s.below(p.bits());
            let d = BigUint::from(s.below(3));
            let v = BigUint::one() << k;
            if s.bool() {
                (v + d) % p
            } else if v >= d {
                (v - d) % p
            } else {
                v % p
            }
        }
        _ => {
            // near p/2, sqrt-size values
            let half: BigUint = p >> 1;
            let d = BigUint::from(s.below(4));
            if s.bool() {
                half + d
            } else {
                let v: Vec<u64> = (0..i.limbs / 2).map(|_| s.u64()).collect();
                limbs_to_big(&v)
            }
        }
    }
}

pub fn elem<F: FieldRef>(s: &mut Src) -> F {
    fe::<F>(&residue(s, info::<F>()))
}
pub fn nonzero<F: FieldRef>(s: &mut Src) -> F {
    let x = elem::<F>(s);
    if x == F::ZERO {
        F::ONE
    } else {
        x
    }
}
/// Cheap uniform element (one choice).
pub fn uniform<F: FieldRef>(s: &mut Src) -> F {
    uniform_from(s.u64())
}
pub fn uniform_from<F: FieldRef>(seed: u64) -> F {
    let mut z = seed;
    let v: Vec<u64> = (0..F::LIMBS + 1)
        .map(|_| {
            z = crate::splitmix(z);
            z
        })
        .collect();
    fe::<F>(&(limbs_to_big(&v) % p::<F>()))
}
pub fn show<F: Field>(x: F) -> String {
    format!("0x{}", big(x).to_str_radix(16))
}

/// Is this element away from 0, 1, -1?
pub fn ordinary<F: Field>(x: F) -> bool {
    x != F::ZERO && x != F::ONE && x != F::NEG_ONE
}

pub fn big_from_u64(x: u64) -> BigUint {
    if x == 0 {
        BigUint::zero()
    } else {
        BigUint::from(x)
    }
}

/// A point of the prime-order group together with its scalar (a multiple of the generator), from the
/// reference model. Small multiples make coincidences (equal, opposite, double) likely.
pub fn point_log<C: CurveRef>(s: &mut Src) -> (BigUint, Pt<C>)
where
    C::ScalarField: FieldRef,
{
    let pool = C::pool();
    let r = p::<C::ScalarField>();
    let (k, q) = match s.weighted(&[1, 5, 3, 4]) {
        0 => return (BigUint::zero(), None),
        1 => pool[s.upto(6)].clone(),
        2 => pool[s.upto(POOL)].clone(),
        _ => {
            let (a, b) = (s.range(POOL_SMALL, POOL - 1), s.upto(POOL));
            ((&pool[a].0 + &pool[b].0) % r, ref_add::<C>(pool[a].1, pool[b].1))
        }
    };
    if s.bool() {
        ((r - k) % r, ref_neg::<C>(q))
    } else {
        (k, q)
    }
}
pub fn point<C: CurveRef>(s: &mut Src) -> Pt<C>
where
    C::ScalarField: FieldRef,
{
    point_log::<C>(s).1
}
/// Any point of the curve, also outside the prime-order group where there are such points.
pub fn any_point<C: CurveRef>(s: &mut Src) -> Pt<C>
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    match s.weighted(&[3, 1, 1]) {
        0 => point::<C>(s),
        1 => {
            // x from a boundary-heavy residue, moved up to the next abscissa of the curve
            let mut x = elem::<C::BaseField>(s);
            loop {
                if let Some(y) = (x * x * x + C::A * x + C::B).square_root() {
                    return Some((x, if s.bool() { C::BaseField::ZERO - y } else { y }));
                }
                x = x + C::BaseField::ONE;
            }
        }
        _ => {
            if C::CNAME == "Bls12377" {
                match s.upto(3) {
                    // order two
                    0 => Some((C::BaseField::NEG_ONE, C::BaseField::ZERO)),
                    // order three
                    k => Some((C::BaseField::ZERO, if k == 1 { C::BaseField::ONE } else { C::BaseField::NEG_ONE })),
                }
            } else {
                point::<C>(s)
            }
        }
    }
}
/// The point's image with the same ordinate and another abscissa, if there is one.
pub fn same_y<C: CurveRef>(q: Pt<C>) -> Pt<C>
where
    C::BaseField: FieldRef,
{
    let (x, y) = q?;
    let w = C::BaseField::MULTIPLICATIVE_SUBGROUP_GENERATOR.exp(fe::<C::BaseField>(&((p::<C::BaseField>() - 1u32) / 3u32)));
    let r = Some((x * w, y));
    if ref_on_curve::<C>(&r) {
        r
    } else {
        q
    }
}
/// A projective representation of a point with an arbitrary scale factor; the identity is generated
/// with arbitrary coordinates next to its flag, as the library's own constants do.
pub fn proj<C: CurveRef>(s: &mut Src, q: Pt<C>) -> ProjectivePoint<C>
where
    C::BaseField: FieldRef,
{
    match q {
        None => match s.upto(2) {
            0 => ProjectivePoint::ZERO,
            _ => AffinePoint::<C>::ZERO.to_projective(),
        },
        Some((x, y)) => {
            let z = if s.bool() { nonzero::<C::BaseField>(s) } else { C::BaseField::ONE };
            ProjectivePoint { x: x * z, y: y * z, z, zero: false }
        }
    }
}
pub fn aff<C: CurveRef>(q: Pt<C>) -> AffinePoint<C>
where
    C::BaseField: FieldRef,
{
    match q {
        None => AffinePoint::ZERO,
        Some((x, y)) => AffinePoint { x, y, zero: false },
    }
}

/// Coefficient list of the given length; shapes: uniform, boundary values, sparse, trailing zeros,
/// all zero, a power of x.
pub fn coeffs<F: FieldRef>(s: &mut Src, n: usize) -> Vec<F> {
    match s.weighted(&[4, 2, 3, 2, 1, 1, 2]) {
        0 => many::<F>(s, n),
        1 => (0..n).map(|_| elem::<F>(s)).collect(),
        2 => {
            let mut v = vec![F::ZERO; n];
            for _ in 0..s.range(1, 3) {
                if n > 0 {
                    let k = s.upto(n);
                    v[k] = nonzero::<F>(s);
                }
            }
            v
        }
        3 => {
            let mut v = many::<F>(s, n);
            let z = s.upto(n + 1);
            for x in v[n - z..].iter_mut() {
                *x = F::ZERO;
            }
            v
        }
        4 => vec![F::ZERO; n],
        5 => {
            let mut v = vec![F::ZERO; n];
            if n > 0 {
                let k = s.upto(n);
                v[k] = F::ONE;
            }
            v
        }
        // low coefficients zero, small values
        _ => {
            let z = s.upto(n + 1);
            let seed = s.u64();
            (0..n).map(|i| if i < z { F::ZERO } else { F::from_canonical_u64(crate::splitmix(seed ^ i as u64) % 3) }).collect()
        }
    }
}
/// `n` uniform elements from one choice.
pub fn many<F: FieldRef>(s: &mut Src, n: usize) -> Vec<F> {
    let seed = s.u64();
    (0..n).map(|i| uniform_from::<F>(crate::splitmix(seed).wrapping_add(i as u64))).collect()
}
pub fn shows<F: Field>(v: &[F]) -> String {
    let t: Vec<String> = v.iter().take(24).map(|&x| show(x)).collect();
    format!("[{}{}] (length {})", t.join(","), if v.len() > 24 { ",..." } else { "" }, v.len())
}
