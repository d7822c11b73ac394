//! C05: the endomorphism and the Halo scalar map.
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::plonk_util::{halo_n, halo_n_mul};
use plonky::*;
use std::collections::HashMap;
use vh::gen::*;
use vh::refs::*;
use vh::*;

trait Halo: HaloCurve + CurveRef {}
impl<T: HaloCurve + CurveRef> Halo for T {}

fn bits(s: &mut Src, max: usize) -> Vec<bool> {
    let n = 2 * match s.upto(4) {
        0 => s.range(0, 4),
        1 => max / 2,
        _ => s.range(0, max / 2),
    };
    match s.upto(4) {
        0 => vec![s.bool(); n],
        1 => {
            let (a, b) = (s.bool(), s.bool());
            (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect()
        }
        _ => {
            let mut v = vec![];
            while v.len() < n {
                let x = s.u64();
                v.extend((0..64).map(|k| x >> k & 1 == 1));
            }
            v.truncate(n);
            v
        }
    }
}
/// The integer pair of the Halo paper's scalar map: each bit pair doubles (a, b) and adds +-1 to one.
fn ref_n<C: Halo>(v: &[bool]) -> BigUint
where
    C::ScalarField: FieldRef,
{
    let r = p::<C::ScalarField>();
    let (mut a, mut b) = (BigUint::zero(), BigUint::zero());
    for c in v.chunks(2) {
        let one = if c[0] { BigUint::one() } else { r - 1u32 };
        a = (a * 2u32 + if c[1] { one.clone() } else { BigUint::zero() }) % r;
        b = (b * 2u32 + if c[1] { BigUint::zero() } else { one }) % r;
    }
    (a * big(C::ZETA_SCALAR) + b) % r
}

fn endo<C: Halo>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let q = point::<C>(s);
    let q2 = point::<C>(s);
    let a = aff::<C>(q);
    s.note(|| format!("{} {:?}", C::CNAME, q.map(|(x, y)| (show(x), show(y)))));
    if q.is_some() {
        s.nontrivial();
    }
    let e = a.endomorphism();
    ensure!(pt(&e) == ref_mul::<C>(q, &big(C::ZETA_SCALAR)), "{} endomorphism is not multiplication by ZETA_SCALAR", C::CNAME);
    ensure!(pt(&e.endomorphism().endomorphism()) == q, "{} endomorphism does not have order 3", C::CNAME);
    ensure!(pt_proj(&((a + aff::<C>(q2)).to_affine().endomorphism() + (-e)))? == pt(&aff::<C>(q2).endomorphism()), "{} endomorphism is not additive", C::CNAME);
    ensure!(e.is_valid(), "{} endomorphism leaves the curve", C::CNAME);
    // constants: non-trivial cube roots of unity
    for (z, m) in [(big(C::ZETA), p::<C::BaseField>()), (big(C::ZETA_SCALAR), p::<C::ScalarField>())].iter() {
        ensure!(!z.is_one() && z.modpow(&BigUint::from(3u32), m).is_one(), "{} zeta is not a primitive cube root of unity", C::CNAME);
    }
    Ok(())
}

fn nmap<C: Halo>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let v = bits(s, 128);
    let q = point::<C>(s);
    s.note(|| format!("{} bits={} point={:?}", C::CNAME, v.iter().map(|&b| if b { '1' } else { '0' }).collect::<String>(), q.map(|(x, y)| (show(x), show(y)))));
    if v.len() > 2 && q.is_some() {
        s.nontrivial();
    }
    let want = ref_n::<C>(&v);
    ensure_eq!(big(halo_n::<C>(&v)), want, "{} halo_n", C::CNAME);
    ensure!(pt(&halo_n_mul::<C>(&v, aff::<C>(q))) == ref_mul::<C>(q, &want), "{} halo_n_mul is not multiplication by n", C::CNAME);
    // injective: neighbouring strings of the same length map elsewhere
    if !v.is_empty() {
        let mut u = v.clone();
        for _ in 0..s.range(1, 3) {
            let k = s.upto(u.len());
            u[k] = !u[k];
        }
        if u != v {
            ensure!(halo_n::<C>(&u) != halo_n::<C>(&v), "{} halo_n maps two strings of {} bits to one scalar", C::CNAME, v.len());
        }
    }
    Ok(())
}

/// All strings of a given even length up to 10 at once, below an arbitrary common part.
fn injective<C: Halo>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let l = 2 * s.range(1, 5);
    let head = bits(s, 118);
    let tail = s.bool();
    s.note(|| format!("{} {} free bits, {} fixed", C::CNAME, l, head.len()));
    s.nontrivial();
    let mut seen: HashMap<Vec<u64>, usize> = HashMap::new();
    for x in 0..1usize << l {
        let free: Vec<bool> = (0..l).map(|k| x >> k & 1 == 1).collect();
        let v = if tail { [head.clone(), free].concat() } else { [free, head.clone()].concat() };
        if let Some(y) = seen.insert(halo_n::<C>(&v).to_canonical_u64_vec(), x) {
            return Err(format!("{} halo_n maps {:b} and {:b} (of {} free bits) to one scalar", C::CNAME, x, y, l));
        }
    }
    Ok(())
}

fn main() {
    Suite::new("C05", "a case is a Halo curve, a point of it (identity, small or random multiple) and a bit string of even length up to 128 (constant, alternating, random); the injectivity law enumerates all settings of up to 10 bits within a random string; non-trivial = not the identity and more than two bits")
        .assume("integer evaluation of the Halo scalar map and double-and-add in the reference model are the oracles; injectivity is decided on generated strings, not proved")
        .law("endomorphism", 4_000, 150_000, |s| each_halo!(s, endo))
        .law("scalar map", 8_000, 300_000, |s| each_halo!(s, nmap))
        .law("injectivity", 2_000, 60_000, |s| each_halo!(s, injective))
        .run()
}
