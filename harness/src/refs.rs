//! Reference models, independent of the code under test as far as practical: big-integer residues,
//! naive affine curve arithmetic, schoolbook polynomials.
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::*;
use std::collections::HashMap;
use std::sync::Mutex;

pub trait FieldRef: Field {
    const NAME: &'static str;
    const LIMBS: usize;
    const MODULUS_HEX: &'static str;
}
macro_rules! fref {
    ($t:ty, $n:expr, $l:expr, $m:expr) => {
        impl FieldRef for $t {
            const NAME: &'static str = $n;
            const LIMBS: usize = $l;
            const MODULUS_HEX: &'static str = $m;
        }
    };
}
// The published field orders of the curves.
fref!(TweedledeeBase, "TweedledeeBase", 4, "40000000000000000000000000000000038aa127696286c9842cafd400000001");
fref!(TweedledumBase, "TweedledumBase", 4, "40000000000000000000000000000000038aa1276c3f59b9a14064e200000001");
fref!(PallasBase, "PallasBase", 4, "40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
fref!(VestaBase, "VestaBase", 4, "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
fref!(Bls12377Base, "Bls12377Base", 6, "01ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001");
fref!(Bls12377Scalar, "Bls12377Scalar", 4, "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001");

/// Everything derived from a modulus that generators and references need.
#[derive(Debug)]
pub struct Info {
    pub p: BigUint,
    pub limbs: usize,
    /// R^-1 mod p for R = 2^(64*limbs): multiplying by it turns a Montgomery pattern into a value.
    pub r_inv: BigUint,
    pub r: BigUint,
}

pub fn info<F: FieldRef>() -> &'static Info {
    lazy(F::NAME, || {
        let p = BigUint::parse_bytes(F::MODULUS_HEX.as_bytes(), 16).unwrap();
        let r = (BigUint::one() << (64 * F::LIMBS)) % &p;
        let r_inv = r.modpow(&(&p - 2u32), &p);
        Info { p, limbs: F::LIMBS, r_inv, r }
    })
}
fn lazy(name: &'static str, f: impl FnOnce() -> Info) -> &'static Info {
    thread_local! {
        static CACHE: std::cell::RefCell<HashMap<&'static str, &'static Info>> = Default::default();
    }
    if let Some(i) = CACHE.with(|c| c.borrow().get(name).copied()) {
        return i;
    }
    let mut g = INFOS.lock().unwrap();
    let i: &'static Info = *g.entry(name).or_insert_with(|| Box::leak(Box::new(f())));
    drop(g);
    CACHE.with(|c| c.borrow_mut().insert(name, i));
    i
}
static INFOS: once_cell::sync::Lazy<Mutex<HashMap<&'static str, &'static Info>>> = once_cell::sync::Lazy::new(Default::default);

pub fn p<F: FieldRef>() -> &'static BigUint {
    &info::<F>().p
}

pub fn limbs_to_big(v: &[u64]) -> BigUint {
    let mut s = Vec::with_capacity(v.len() * 2);
    for &x in v {
        s.push(x as u32);
        s.push((x >> 32) as u32);
    }
    BigUint::new(s)
}
pub fn big_to_limbs(b: &BigUint, n: usize) -> Vec<u64> {
    let d = b.to_u32_digits();
    let mut out = vec![0u64; n];
    for (i, &x) in d.iter().enumerate() {
        assert!(i / 2 < n);
        out[i / 2] |= (x as u64) << (32 * (i % 2));
    }
    out
}
/// The integer a field element stands for.
pub fn big<F: Field>(x: F) -> BigUint {
    limbs_to_big(&x.to_canonical_u64_vec())
}
/// The field element of an integer below the order.
pub fn fe<F: FieldRef>(b: &BigUint) -> F {
    debug_assert!(b < p::<F>());
    F::from_canonical_u64_vec(big_to_limbs(b, F::LIMBS))
}
pub fn add_mod<F: FieldRef>(a: &BigUint, b: &BigUint) -> BigUint {
    (a + b) % p::<F>()
}
pub fn sub_mod<F: FieldRef>(a: &BigUint, b: &BigUint) -> BigUint {
    (a + (p::<F>() - b)) % p::<F>()
}
pub fn mul_mod<F: FieldRef>(a: &BigUint, b: &BigUint) -> BigUint {
    (a * b) % p::<F>()
}
pub fn neg_mod<F: FieldRef>(a: &BigUint) -> BigUint {
    (p::<F>() - a) % p::<F>()
}
pub fn inv_mod<F: FieldRef>(a: &BigUint) -> BigUint {
    assert!(!a.is_zero());
    a.modpow(&(p::<F>() - 2u32), p::<F>())
}

pub trait CurveRef: Curve {
    const CNAME: &'static str;
    /// Multiples of the generator with their scalars, computed once by the reference model:
    /// 0..POOL_SMALL are the scalars 1, 2, 3, ..., the rest pseudo-random scalars.
    fn pool() -> &'static Vec<(BigUint, Pt<Self>)>;
}
pub const POOL_SMALL: usize = 40;
pub const POOL: usize = 100;
fn make_pool<C: Curve>(order: &BigUint) -> Vec<(BigUint, Pt<C>)> {
    let g: Pt<C> = Some((C::GENERATOR_AFFINE.x, C::GENERATOR_AFFINE.y));
    let mut z = 77u64;
    (0..POOL)
        .map(|i| {
            let k = if i < POOL_SMALL {
                BigUint::from(i as u64 + 1)
            } else {
                let v: Vec<u64> = (0..5)
                    .map(|_| {
                        z = crate::splitmix(z);
                        z
                    })
                    .collect();
                limbs_to_big(&v) % order
            };
            let q = ref_mul::<C>(g, &k);
            (k, q)
        })
        .collect()
}
macro_rules! cref {
    ($t:ty, $n:expr, $s:ty) => {
        impl CurveRef for $t {
            const CNAME: &'static str = $n;
            fn pool() -> &'static Vec<(BigUint, Pt<Self>)> {
                static P: once_cell::sync::Lazy<Vec<(BigUint, Pt<$t>)>> = once_cell::sync::Lazy::new(|| make_pool::<$t>(p::<$s>()));
                &P
            }
        }
    };
}
cref!(Tweedledee, "Tweedledee", TweedledumBase);
cref!(Tweedledum, "Tweedledum", TweedledeeBase);
cref!(Pallas, "Pallas", VestaBase);
cref!(Vesta, "Vesta", PallasBase);
cref!(Bls12377, "Bls12377", Bls12377Scalar);

/// Naive chord-and-tangent model of a short Weierstrass curve; `None` is the identity.
pub type Pt<C> = Option<(<C as Curve>::BaseField, <C as Curve>::BaseField)>;

pub fn pt<C: Curve>(a: &AffinePoint<C>) -> Pt<C> {
    if a.zero {
        None
    } else {
        Some((a.x, a.y))
    }
}
pub fn affine<C: Curve>(p: Pt<C>) -> AffinePoint<C> {
    match p {
        None => AffinePoint::ZERO,
        Some((x, y)) => AffinePoint { x, y, zero: false },
    }
}
/// Affine coordinates of a projective point, computed here with one field inversion.
pub fn pt_proj<C: Curve>(a: &ProjectivePoint<C>) -> Result<Pt<C>, String> {
    if a.zero {
        return Ok(None);
    }
    let zi = a.z.multiplicative_inverse().ok_or_else(|| "projective point with z = 0 not flagged as identity".to_string())?;
    Ok(Some((a.x * zi, a.y * zi)))
}
pub fn ref_on_curve<C: Curve>(p: &Pt<C>) -> bool {
    match p {
        None => true,
        Some((x, y)) => *y * *y == *x * *x * *x + C::A * *x + C::B,
    }
}
pub fn ref_neg<C: Curve>(a: Pt<C>) -> Pt<C> {
    a.map(|(x, y)| (x, C::BaseField::ZERO - y))
}
pub fn ref_add<C: Curve>(a: Pt<C>, b: Pt<C>) -> Pt<C> {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, _) => return b,
        (_, None) => return a,
        (Some(p), Some(q)) => (p, q),
    };
    let l = if x1 == x2 {
        if y1 != y2 || y1 == C::BaseField::ZERO {
            return None;
        }
        let n = x1 * x1;
        let n = n + n + n + C::A;
        n * (y1 + y1).multiplicative_inverse().expect("2y")
    } else {
        (y2 - y1) * (x2 - x1).multiplicative_inverse().expect("dx")
    };
    let x3 = l * l - x1 - x2;
    let y3 = l * (x1 - x3) - y1;
    Some((x3, y3))
}
pub fn ref_mul<C: Curve>(a: Pt<C>, k: &BigUint) -> Pt<C> {
    let mut acc: Pt<C> = None;
    for i in (0..k.bits()).rev() {
        acc = ref_add::<C>(acc, acc);
        if ((k >> i) & BigUint::one()).is_one() {
            acc = ref_add::<C>(acc, a);
        }
    }
    acc
}
pub fn ref_mul_scalar<C: Curve>(a: Pt<C>, k: C::ScalarField) -> Pt<C> {
    ref_mul::<C>(a, &big(k))
}

/// Schoolbook polynomials over coefficient lists; results are trimmed.
pub mod poly {
    use plonky::Field;
    pub fn trim<F: Field>(v: &[F]) -> Vec<F> {
        let mut v = v.to_vec();
        while v.last().map_or(false, |x| *x == F::ZERO) {
            v.pop();
        }
        v
    }
    pub fn add<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
        let g = |v: &[F], i: usize| v.get(i).copied().unwrap_or(F::ZERO);
        trim(&(0..a.len().max(b.len())).map(|i| g(a, i) + g(b, i)).collect::<Vec<_>>())
    }
    pub fn mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
        let (a, b) = (trim(a), trim(b));
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![F::ZERO; a.len() + b.len() - 1];
        for (i, &x) in a.iter().enumerate() {
            for (j, &y) in b.iter().enumerate() {
                r[i + j] = r[i + j] + x * y;
            }
        }
        trim(&r)
    }
    pub fn eval<F: Field>(a: &[F], x: F) -> F {
        let mut r = F::ZERO;
        for &c in a.iter().rev() {
            r = r * x + c;
        }
        r
    }
    /// Quotient and remainder by the pencil-and-paper method.
    pub fn divide<F: Field>(a: &[F], b: &[F]) -> (Vec<F>, Vec<F>) {
        let (mut r, b) = (trim(a), trim(b));
        let lead = b.last().expect("nonzero divisor").multiplicative_inverse().unwrap();
        let mut q = vec![F::ZERO; (r.len() + 1).saturating_sub(b.len())];
        while r.len() >= b.len() {
            let k = r.len() - b.len();
            let c = *r.last().unwrap() * lead;
            q[k] = c;
            for (i, &y) in b.iter().enumerate() {
                r[k + i] = r[k + i] - c * y;
            }
            let n = r.len();
            r.truncate(n - 1);
            r = trim(&r);
        }
        (trim(&q), r)
    }
}

/// Shape of the proof system's rows (published in the documentation of the gates).
pub const WIRES: usize = 9;
pub const ROUTED: usize = 6;
pub const CONSTANTS: usize = 6;
pub const GRID: usize = 65;

/// Entry of the Rescue mixing matrix: a Cauchy matrix over the nodes n..2n and 0..n.
pub fn ref_mds<F: FieldRef>(n: usize, r: usize, c: usize) -> F {
    fe::<F>(&inv_mod::<F>(&BigUint::from((n + r - c) as u64)))
}
/// Rescue's mixing layer with a round constant.
pub fn ref_mix<F: FieldRef>(state: &[F], k: &[F]) -> Vec<F> {
    let n = state.len();
    (0..n).map(|r| (0..n).fold(k[r], |a, c| a + ref_mds::<F>(n, r, c) * state[c])).collect()
}
