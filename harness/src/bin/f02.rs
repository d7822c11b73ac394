//! F02: conversions between field elements, integers, limbs, bytes, bits and other fields are exact,
//! and ordering is integer ordering.
use num::bigint::BigUint;
use num::Zero;
use plonky::*;
use rand::SeedableRng;
use std::cmp::Ordering;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn repr<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let a = residue(s, i);
    let limbs = big_to_limbs(&a, i.limbs);
    let x = F::from_canonical_u64_vec(limbs.clone());
    s.note(|| format!("{} {}", F::NAME, a));
    if a > BigUint::from(u32::MAX) {
        s.nontrivial();
    }
    ensure_eq!(x.to_canonical_u64_vec(), limbs, "{} u64 limbs", F::NAME);
    let u32s: Vec<u32> = limbs.iter().flat_map(|&l| vec![l as u32, (l >> 32) as u32]).collect();
    ensure_eq!(x.to_canonical_u32_vec(), u32s, "{} u32 limbs", F::NAME);
    let u8s: Vec<u8> = limbs.iter().flat_map(|&l| l.to_le_bytes().to_vec()).collect();
    ensure_eq!(x.to_canonical_u8_vec(), u8s, "{} bytes", F::NAME);
    let bits: Vec<bool> = (0..64 * i.limbs).map(|k| limbs[k / 64] >> (k % 64) & 1 == 1).collect();
    ensure_eq!(x.to_canonical_bool_vec(), bits, "{} bits", F::NAME);
    ensure!(F::from_canonical_u32_vec(u32s) == x, "{} from u32 limbs", F::NAME);
    match F::from_canonical_u8_vec(u8s) {
        Ok(y) => ensure!(y == x, "{} from bytes", F::NAME),
        Err(e) => return Err(format!("{} canonical bytes refused: {}", F::NAME, e)),
    }
    ensure!(F::is_valid_canonical_u64(&limbs), "{} canonical limbs called invalid", F::NAME);
    ensure_eq!(x.num_bits() as u64, if a.is_zero() { 0 } else { a.bits() }, "{} num_bits", F::NAME);
    ensure_eq!(field_to_biguint(x), a, "{} field_to_biguint", F::NAME);
    ensure!(biguint_to_field::<F>(a.clone()) == x, "{} biguint_to_field", F::NAME);
    ensure_eq!(u64_slice_to_biguint(&limbs), a, "u64_slice_to_biguint");
    ensure_eq!(format!("{}", x), a.to_string(), "{} display", F::NAME);
    ensure!(format!("{:?}", x) == format!("{:?}", F::from_canonical_u64_vec(limbs)), "{} debug", F::NAME);
    Ok(())
}

fn small<F: FieldRef>(s: &mut Src) -> Res {
    let k = match s.upto(4) {
        0 => s.below(300),
        1 => (1u64 << s.below(64)).wrapping_sub(s.below(2)),
        2 => u64::MAX - s.below(10),
        _ => s.u64(),
    };
    s.note(|| format!("{} {}", F::NAME, k));
    if k > 1 {
        s.nontrivial();
    }
    ensure_eq!(big(F::from_canonical_u64(k)), BigUint::from(k), "{} from u64", F::NAME);
    ensure_eq!(big(F::from_canonical_usize(k as usize)), BigUint::from(k), "{} from usize", F::NAME);
    ensure_eq!(big(F::from_canonical_u32(k as u32)), BigUint::from(k as u32), "{} from u32", F::NAME);
    ensure_eq!(big(F::from_canonical_bool(k & 1 == 1)), BigUint::from(k & 1), "{} from bool", F::NAME);
    Ok(())
}

/// Byte strings and limb lists that need not be canonical: accepted exactly when they are.
fn raw<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let v = match s.upto(4) {
        0 => &i.p + BigUint::from(s.below(5)),
        1 => &i.p - 1u32 - BigUint::from(s.below(5)),
        2 => limb_pattern(s, i.limbs, &i.p),
        _ => {
            // the modulus with a single limb replaced by a neighbour
            let mut l = big_to_limbs(&i.p, i.limbs);
            let k = s.upto(i.limbs);
            l[k] = match s.upto(4) {
                0 => l[k].wrapping_add(1),
                1 => l[k].wrapping_sub(1),
                2 => u64::MAX,
                _ => 0,
            };
            limbs_to_big(&l)
        }
    };
    let limbs = big_to_limbs(&v, i.limbs);
    let ok = v < i.p;
    s.class(if ok { "canonical" } else { "not canonical" });
    s.nontrivial();
    s.note(|| format!("{} {}", F::NAME, v));
    ensure_eq!(F::is_valid_canonical_u64(&limbs), ok, "{} is_valid_canonical_u64 of {}", F::NAME, v);
    let bytes: Vec<u8> = limbs.iter().flat_map(|&l| l.to_le_bytes().to_vec()).collect();
    match F::from_canonical_u8_vec(bytes.clone()) {
        Ok(x) => ensure!(ok && big(x) == v, "{} from bytes of {} gives {}", F::NAME, v, show(x)),
        Err(_) => ensure!(!ok, "{} canonical bytes of {} refused", F::NAME, v),
    }
    // wrong lengths are never canonical
    let mut longer = limbs.clone();
    longer.push(s.below(2));
    ensure!(!F::is_valid_canonical_u64(&longer), "{} an extra limb accepted", F::NAME);
    ensure!(!F::is_valid_canonical_u64(&limbs[..i.limbs - 1]), "{} a missing limb accepted", F::NAME);
    let n = s.upto(bytes.len() + 9);
    let mut odd = bytes.clone();
    odd.resize(n, 0);
    match catching(|| F::from_canonical_u8_vec(odd.clone())) {
        Err(m) => return Err(format!("{} from_canonical_u8_vec panics on {} bytes: {}", F::NAME, n, m)),
        Ok(Ok(x)) => ensure!(n == bytes.len() && big(x) == v, "{} {} bytes accepted as {}", F::NAME, n, show(x)),
        Ok(Err(_)) => ensure!(n != bytes.len() || !ok, "{} canonical bytes refused", F::NAME),
    }
    Ok(())
}

fn order<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let a = residue(s, i);
    let b = match s.upto(4) {
        0 => residue(s, i),
        1 => a.clone(),
        2 => {
            // differs in one limb only
            let mut l = big_to_limbs(&a, i.limbs);
            let k = s.upto(i.limbs);
            l[k] = l[k].wrapping_add(if s.bool() { 1 } else { s.u64() });
            limbs_to_big(&l) % &i.p
        }
        _ => {
            // low limbs swapped against high limbs
            let mut l = big_to_limbs(&a, i.limbs);
            l.reverse();
            limbs_to_big(&l) % &i.p
        }
    };
    let (x, y) = (fe::<F>(&a), fe::<F>(&b));
    s.note(|| format!("{} {} vs {}", F::NAME, a, b));
    if a != b {
        s.nontrivial();
    }
    ensure_eq!(x.cmp(&y), a.cmp(&b), "{} cmp", F::NAME);
    ensure_eq!(y.cmp(&x), b.cmp(&a), "{} cmp reversed", F::NAME);
    ensure_eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "{} partial_cmp", F::NAME);
    ensure_eq!(x < y, a < b, "{} <", F::NAME);
    ensure_eq!(x.cmp_helper(&y), a.cmp(&b), "{} cmp_helper", F::NAME);
    let mut v = vec![y, x, y, x];
    v.sort();
    ensure!(v.windows(2).all(|w| big(w[0]).cmp(&big(w[1])) != Ordering::Greater), "{} sort", F::NAME);
    Ok(())
}

fn convert<F: FieldRef, G: FieldRef>(s: &mut Src) -> Res {
    let (i, j) = (info::<F>(), info::<G>());
    let near = |s: &mut Src| match s.upto(3) {
        0 => residue(s, i),
        1 => residue(s, j) % &i.p,
        _ => {
            let d = BigUint::from(s.below(6));
            if s.bool() {
                (&j.p + d) % &i.p
            } else {
                (&j.p - 1u32 - d) % &i.p
            }
        }
    };
    let n = s.range(1, 4);
    let vs: Vec<BigUint> = (0..n).map(|_| near(s)).collect();
    s.note(|| format!("{} -> {} {:?}", F::NAME, G::NAME, vs));
    if F::NAME != G::NAME {
        s.nontrivial();
    }
    let mut all = true;
    for v in &vs {
        let fits = v < &j.p;
        all &= fits;
        s.class(if fits { "fits" } else { "does not fit" });
        match fe::<F>(v).try_convert::<G>() {
            Ok(y) => ensure!(fits && big(y) == *v, "{} {} converted to {} {}", F::NAME, v, G::NAME, show(y)),
            Err(_) => ensure!(!fits, "{} {} refused by {} although it fits", F::NAME, v, G::NAME),
        }
    }
    let xs: Vec<F> = vs.iter().map(|v| fe::<F>(v)).collect();
    match F::try_convert_all::<G>(&xs) {
        Ok(ys) => ensure!(all && ys.iter().map(|&y| big(y)).collect::<Vec<_>>() == vs, "{} list converted to {} wrongly", F::NAME, G::NAME),
        Err(_) => ensure!(!all, "{} list refused by {} although it fits", F::NAME, G::NAME),
    }
    Ok(())
}
fn convert_any<F: FieldRef>(s: &mut Src) -> Res {
    match s.upto(6) {
        0 => convert::<F, TweedledeeBase>(s),
        1 => convert::<F, TweedledumBase>(s),
        2 => convert::<F, Bls12377Base>(s),
        3 => convert::<F, Bls12377Scalar>(s),
        4 => convert::<F, PallasBase>(s),
        _ => convert::<F, VestaBase>(s),
    }
}

fn random<F: FieldRef>(s: &mut Src) -> Res {
    s.seed_code_rng();
    s.nontrivial();
    let i = info::<F>();
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(s.u64());
    let mut rng2 = rng.clone();
    let a = F::rand_from_rng(&mut rng);
    let b = F::rand_from_rng(&mut rng2);
    ensure!(a == b, "{} rand_from_rng is not a function of the generator", F::NAME);
    let c = F::rand_from_rng(&mut rng);
    ensure!(a != c, "{} rand_from_rng repeats itself", F::NAME);
    let (d, e) = (F::rand(), F::rand());
    ensure!(d != e, "{} rand repeats itself", F::NAME);
    for x in [a, c, d, e].iter() {
        // re-encoding through the canonical integer must give an equal element (limbs reduced)
        ensure!(big(*x) < i.p && fe::<F>(&big(*x)) == *x, "{} random element out of range", F::NAME);
        // values drawn uniformly are not confined to a small part of the range
        ensure!(big(*x).bits() + 60 > i.p.bits(), "{} random element suspiciously small: {}", F::NAME, show(*x));
    }
    s.note(|| format!("{} {}", F::NAME, show(a)));
    Ok(())
}

fn main() {
    Suite::new("F02", "a case is a field and boundary-heavy integers (also at and above the order, with single limbs off, and around another field's order); non-trivial = integer above 2^32, differing operands, or conversion between two different fields")
        .assume("num-bigint integer arithmetic is the oracle")
        .law("representations", 300_000, 10_000_000, |s| each_field!(s, repr))
        .law("small integers", 100_000, 2_000_000, |s| each_field!(s, small))
        .law("canonical validity", 300_000, 10_000_000, |s| each_field!(s, raw))
        .law("ordering", 400_000, 10_000_000, |s| each_field!(s, order))
        .law("conversion", 300_000, 10_000_000, |s| each_field!(s, convert_any))
        .law("random elements", 50_000, 2_000_000, |s| each_field!(s, random))
        .run()
}
