//! C06: hashing to the curve.
use plonky::*;
use std::collections::HashMap;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Blake3-based candidate stream, written from the documented construction: H(seed || attempt || retry)
/// extended to one byte more than an element, top byte cut to the field's bit length, first value below
/// the order; the extra byte's low bit chooses the sign.
fn ref_blake<F: FieldRef>(iter: u8, seed: F) -> (F, bool) {
    let i = info::<F>();
    let n = F::BYTES;
    let mut msg = seed.to_canonical_u8_vec();
    msg.push(iter);
    msg.push(0);
    for retry in 0..=255u8 {
        *msg.last_mut().unwrap() = retry;
        let mut out = vec![0u8; n + 1];
        blake3::Hasher::new().update(&msg).finalize_xof().fill(&mut out);
        out[n - 1] >>= 8 * n - i.p.bits() as usize;
        let v = num::BigUint::from_bytes_le(&out[..n]);
        if v < i.p {
            return (fe::<F>(&v), out[n] & 1 == 1);
        }
    }
    unreachable!()
}
fn ref_point<C: CurveRef>(h: &dyn Fn(u32) -> (C::BaseField, bool)) -> Pt<C> {
    for k in 0..256 {
        let (x, neg) = h(k);
        if let Some(y) = (x * x * x + C::A * x + C::B).square_root() {
            return Some((x, if neg { C::BaseField::ZERO - y } else { y }));
        }
    }
    unreachable!()
}

fn blake<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let seed = elem::<C::BaseField>(s);
    let k = s.u64();
    s.note(|| format!("{} seed={}", C::CNAME, show(seed)));
    if seed != C::BaseField::ZERO {
        s.nontrivial();
    }
    let iter = s.upto(256) as u8;
    ensure!(blake_field(iter, seed) == ref_blake(iter, seed), "{} blake_field({}, {})", C::CNAME, iter, show(seed));
    let a = blake_hash_base_field_to_curve::<C>(seed);
    ensure!(!a.zero && ref_on_curve::<C>(&pt(&a)), "{} hash of {} is not a curve point", C::CNAME, show(seed));
    ensure!(pt(&a) == ref_point::<C>(&|k| ref_blake(k as u8, seed)), "{} hash of {} is not the documented map", C::CNAME, show(seed));
    ensure!(a == blake_hash_base_field_to_curve::<C>(seed), "{} not deterministic", C::CNAME);
    let b = blake_hash_usize_to_curve::<C>(k as usize);
    ensure!(b == blake_hash_base_field_to_curve::<C>(C::BaseField::from_canonical_u64(k)), "{} integer seed {}", C::CNAME, k);
    Ok(())
}

fn rescue<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let seed = elem::<C::BaseField>(s);
    let k = s.u64();
    let bits = *s.pick(&[128usize, 64, 20, 129, 160, 192, 256]);
    s.note(|| format!("{} seed={} security={}", C::CNAME, show(seed), bits));
    if seed != C::BaseField::ZERO {
        s.nontrivial();
    }
    let a = hash_base_field_to_curve::<C>(seed, bits);
    ensure!(!a.zero && ref_on_curve::<C>(&pt(&a)), "{} hash of {} is not a curve point", C::CNAME, show(seed));
    let want = ref_point::<C>(&|i| {
        let o = rescue_sponge(vec![seed, C::BaseField::from_canonical_u32(i)], 2, bits);
        (o[0], o[1].to_canonical_bool_vec()[0])
    });
    ensure!(pt(&a) == want, "{} hash of {} is not the documented map", C::CNAME, show(seed));
    ensure!(a == hash_base_field_to_curve::<C>(seed, bits), "{} not deterministic", C::CNAME);
    ensure!(hash_usize_to_curve::<C>(k as usize, bits) == hash_base_field_to_curve::<C>(C::BaseField::from_canonical_u64(k), bits), "{} usize seed", C::CNAME);
    ensure!(hash_u32_to_curve::<C>(k as u32, bits) == hash_base_field_to_curve::<C>(C::BaseField::from_canonical_u64(k as u32 as u64), bits), "{} u32 seed", C::CNAME);
    Ok(())
}

/// Nearby and structured seeds give different points that are not related by a sign.
fn distinct<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let start = s.u64() >> s.below(64);
    let n = s.range(20, 60);
    s.note(|| format!("{} seeds {}..+{}", C::CNAME, start, n));
    s.nontrivial();
    let mut seen = HashMap::new();
    let mut signs = 0;
    let mut seeds: Vec<C::BaseField> = (0..n as u64).map(|i| C::BaseField::from_canonical_u64(start.wrapping_add(i))).collect();
    // seeds that agree in all but one limb or bit
    let base = elem::<C::BaseField>(s);
    let mut b = C::BaseField::ONE;
    for _ in 0..n {
        seeds.push(base + b);
        b = b.double().double().double().double().double();
    }
    for x in seeds {
        let q = blake_hash_base_field_to_curve::<C>(x);
        signs += (q.y.to_canonical_bool_vec()[0]) as usize;
        if let Some(old) = seen.insert(q.x.to_canonical_u64_vec(), x) {
            ensure!(old == x, "{} seeds {} and {} hash to the same abscissa", C::CNAME, show(old), show(x));
        }
    }
    ensure!(signs > 0 && signs < 2 * n, "{} all {} points have ordinates of the same parity", C::CNAME, 2 * n);
    Ok(())
}

fn main() {
    Suite::new("C06", "a case is a curve and a seed (boundary-heavy field element or integer); the distinctness law takes runs of consecutive integers and elements differing in single bits; non-trivial = nonzero seed")
        .assume("an independent implementation of the documented try-and-increment map over the blake3 crate is the oracle; the Rescue variant is rebuilt from the library's sponge (checked by H01)")
        .assume("unpredictability of the points' discrete logarithms is not testable; distinctness stands in for it")
        .law("blake map", 15_000, 600_000, |s| each_curve!(s, blake))
        .law("rescue map", 300, 12_000, |s| each_curve!(s, rescue))
        .law("distinct seeds", 600, 20_000, |s| each_curve!(s, distinct))
        .run()
}
