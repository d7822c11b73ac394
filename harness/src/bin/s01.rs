//! S01: field elements and points survive the byte format and serde; bad bytes are refused.
use plonky::*;
use serde::{de::DeserializeOwned, Serialize};
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// CBOR byte string holding `b`.
fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    serde_cbor::to_vec(&serde_cbor::Value::Bytes(b.to_vec())).unwrap()
}
fn bytes<T: ToBytes>(x: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    x.write(&mut v).map_err(|e| format!("writing failed: {}", e))?;
    Ok(v)
}
/// The value with its serde form, whatever reader is used.
fn serde_trip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T, raw: &[u8]) -> Res {
    let v = serde_cbor::to_vec(x).map_err(|e| format!("serialization of {:?} failed: {}", x, e))?;
    ensure!(v == cbor_bytes(raw), "serde form of {:?} is {:x?}, expected its bytes {:x?}", x, v, raw);
    let y: T = serde_cbor::from_slice(&v).map_err(|e| format!("deserialization of {:?} failed: {}", x, e))?;
    ensure_eq!(y, *x, "serde round trip");
    let y: T = serde_cbor::from_reader(&v[..]).map_err(|e| format!("deserialization of {:?} from a reader failed: {}", x, e))?;
    ensure_eq!(y, *x, "serde round trip through a reader");
    Ok(())
}
/// The encoding the format declares for a field element: the integer, little endian.
fn le<F: FieldRef>(x: F) -> Vec<u8> {
    big_to_limbs(&big(x), F::LIMBS).iter().flat_map(|l| l.to_le_bytes().to_vec()).collect()
}
fn point_bytes<C: CurveRef>(q: Pt<C>) -> Vec<u8>
where
    C::BaseField: FieldRef,
{
    match q {
        None => {
            let mut v = vec![0u8; C::BaseField::BYTES + 1];
            v[0] = 1;
            v
        }
        Some((x, y)) => {
            let mut v = vec![if big(y).bit(0) { 2 } else { 0 }];
            v.extend(le(x));
            v
        }
    }
}

fn field_trip<F: FieldRef + DeserializeOwned>(s: &mut Src) -> Res {
    let x = elem::<F>(s);
    s.note(|| format!("{} {}", F::NAME, show(x)));
    if ordinary(x) {
        s.nontrivial();
    }
    let b = bytes(&x)?;
    ensure_eq!(b.len(), F::BYTES, "{} encoded size", F::NAME);
    ensure!(b == le(x), "{} encoding of {} is {:x?}", F::NAME, show(x), b);
    let y = F::read(&b[..]).map_err(|e| format!("{} reading {} failed: {}", F::NAME, show(x), e))?;
    ensure_eq!(y, x, "{} byte round trip", F::NAME);
    serde_trip(&x, &b)
}

fn point_trip<C: CurveRef>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let q = any_point::<C>(s);
    let a = aff::<C>(q);
    s.note(|| format!("{} {:?}", C::CNAME, a));
    if q.is_some() {
        s.nontrivial();
    } else {
        s.class("identity");
    }
    let b = bytes(&a)?;
    ensure!(b == point_bytes::<C>(q), "{} encoding of {:?} is {:x?}", C::CNAME, a, b);
    let r = AffinePoint::<C>::read(&b[..]).map_err(|e| format!("{} reading {:?} failed: {}", C::CNAME, a, e))?;
    ensure!(r == a && pt(&r) == q, "{} byte round trip of {:?} gives {:?}", C::CNAME, a, r);
    serde_trip(&a, &b)?;
    // the identity in another form has the same meaning
    let p = proj::<C>(s, q).to_affine();
    let r = AffinePoint::<C>::read(&bytes(&p)?[..]).map_err(|e| format!("{} reading {:?} failed: {}", C::CNAME, p, e))?;
    ensure!(pt(&r) == q, "{} byte round trip of {:?} gives {:?}", C::CNAME, p, r);
    Ok(())
}

/// Values written one after another are read back one after another.
fn streams<C: CurveRef>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    enum Item<C: CurveRef>
    where
        C::BaseField: FieldRef,
    {
        P(Pt<C>),
        B(C::BaseField),
        S(C::ScalarField),
    }
    let n = s.tail(1, 12, 300, 100);
    let mut buf: Vec<u8> = vec![];
    let mut items: Vec<Item<C>> = vec![];
    let w = |e: std::io::Error| e.to_string();
    for _ in 0..n {
        match s.upto(4) {
            0 | 1 => {
                let q = point::<C>(s);
                if q.is_none() {
                    s.class("identity inside");
                }
                aff::<C>(q).write(&mut buf).map_err(w)?;
                items.push(Item::P(q));
            }
            2 => {
                let x = elem::<C::BaseField>(s);
                x.write(&mut buf).map_err(w)?;
                items.push(Item::B(x));
            }
            _ => {
                let x = elem::<C::ScalarField>(s);
                x.write(&mut buf).map_err(w)?;
                items.push(Item::S(x));
            }
        }
    }
    if n > 1 {
        s.nontrivial();
    }
    let mut r = &buf[..];
    for (i, it) in items.iter().enumerate() {
        let fail = |e: std::io::Error| format!("{} value {} of {} not read back: {}", C::CNAME, i, n, e);
        match it {
            Item::P(q) => {
                let p = AffinePoint::<C>::read(&mut r).map_err(fail)?;
                ensure!(pt(&p) == *q, "{} value {} of {}: point {:?} read back as {:?}", C::CNAME, i, n, q, p);
            }
            Item::B(x) => ensure_eq!(C::BaseField::read(&mut r).map_err(fail)?, *x, "{} value {} of {}", C::CNAME, i, n),
            Item::S(x) => ensure_eq!(C::ScalarField::read(&mut r).map_err(fail)?, *x, "{} value {} of {}", C::CNAME, i, n),
        }
    }
    ensure_eq!(r.len(), 0, "{} bytes left after reading everything back", C::CNAME);
    Ok(())
}

/// Arbitrary bytes for a field element.
fn field_bytes<F: FieldRef + DeserializeOwned>(s: &mut Src) -> Res {
    let n = F::BYTES;
    let p = p::<F>();
    let v = match s.upto(4) {
        0 => limb_pattern(s, F::LIMBS, p),
        1 => p + s.below(4),
        2 => p - 1u32 - s.below(4),
        _ => {
            let w: Vec<u64> = (0..F::LIMBS).map(|_| s.u64()).collect();
            limbs_to_big(&w)
        }
    };
    let mut b: Vec<u8> = big_to_limbs(&v, F::LIMBS).iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
    let cut = if s.chance(1, 4) { s.upto(n) } else { n };
    b.truncate(cut);
    s.note(|| format!("{} {:x?}", F::NAME, b));
    let good = cut == n && v < *p;
    if !good {
        s.nontrivial();
    }
    s.class(if good { "canonical" } else if cut < n { "truncated" } else { "not below the order" });
    let r = F::read(&b[..]);
    let c: Result<F, _> = serde_cbor::from_slice(&cbor_bytes(&b));
    if good {
        ensure!(r.as_ref().ok().map(|x| big(*x)) == Some(v.clone()), "{} canonical bytes of {} read as {:?}", F::NAME, v, r);
        ensure!(c.as_ref().ok().map(|x| big(*x)) == Some(v.clone()), "{} canonical bytes of {} deserialized as {:?}", F::NAME, v, c);
    } else {
        ensure!(r.is_err(), "{} accepted {} bytes of {}: {:?}", F::NAME, cut, v, r);
        ensure!(c.is_err(), "{} deserialized {} bytes of {}: {:?}", F::NAME, cut, v, c);
    }
    // other shapes of serde input are refused
    let other = match s.upto(4) {
        0 => serde_cbor::Value::Integer(s.u64() as i128),
        1 => serde_cbor::Value::Text("5".into()),
        2 => serde_cbor::Value::Null,
        _ => serde_cbor::Value::Array(vec![]),
    };
    let c: Result<F, _> = serde_cbor::from_slice(&serde_cbor::to_vec(&other).unwrap());
    ensure!(c.is_err(), "{} deserialized from {:?}", F::NAME, other);
    Ok(())
}

/// Arbitrary bytes for a point.
fn point_any_bytes<C: CurveRef>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = C::BaseField::BYTES;
    let p = p::<C::BaseField>();
    let x = match s.upto(5) {
        0 => limb_pattern(s, C::BaseField::LIMBS, p),
        1 => p + s.below(4),
        2 => big(match any_point::<C>(s) {
            Some((x, _)) => x,
            None => C::BaseField::ZERO,
        }),
        3 => residue(s, info::<C::BaseField>()),
        _ => {
            let w: Vec<u64> = (0..C::BaseField::LIMBS).map(|_| s.u64()).collect();
            limbs_to_big(&w)
        }
    };
    // canonical mask bytes only: other bits carry no meaning in the format
    let mask = *s.pick(&[0u8, 2, 1]);
    let mut b = vec![mask];
    b.extend(big_to_limbs(&x, C::BaseField::LIMBS).iter().flat_map(|l| l.to_le_bytes().to_vec()));
    let cut = if s.chance(1, 4) { s.upto(n + 1) } else { n + 1 };
    b.truncate(cut);
    s.note(|| format!("{} {:x?}", C::CNAME, b));
    let r = catching(|| AffinePoint::<C>::read(&b[..]).map_err(|e| e.to_string()))?;
    let c: Result<AffinePoint<C>, String> = serde_cbor::from_slice(&cbor_bytes(&b)).map_err(|e| e.to_string());
    ensure!(r.is_ok() == c.is_ok(), "{} byte reader says {:?}, serde {:?}", C::CNAME, r, c);
    if cut < n + 1 {
        s.class("truncated");
        s.nontrivial();
        ensure!(r.is_err(), "{} accepted {} of {} bytes", C::CNAME, cut, n + 1);
        return Ok(());
    }
    if let Ok(q) = r {
        ensure!(ref_on_curve::<C>(&pt(&q)), "{} bytes {:x?} read as {:?}, which is not on the curve", C::CNAME, b, q);
        ensure!(c.as_ref().ok() == Some(&q), "{} bytes {:x?} read as {:?} and deserialized as {:?}", C::CNAME, b, q, c);
    }
    if mask == 1 {
        s.class("identity");
        if x == num::zero() {
            ensure!(r.as_ref().map(|q| q.zero) == Ok(true), "{} identity bytes read as {:?}", C::CNAME, r);
        }
        return Ok(());
    }
    let curve_y2 = if x < *p {
        let e = fe::<C::BaseField>(&x);
        Some(e * e * e + C::A * e + C::B)
    } else {
        None
    };
    // Euler's criterion, on integers
    let square = |v: C::BaseField| v == C::BaseField::ZERO || big(v).modpow(&((p - 1u32) >> 1), p) == num::one();
    match curve_y2 {
        Some(v) if square(v) => {
            s.class("on the curve");
            match r {
                Ok(q) => {
                    ensure!(!q.zero && big(q.x) == x, "{} bytes of abscissa {} read as {:?}", C::CNAME, x, q);
                    ensure!(q.y == C::BaseField::ZERO || big(q.y).bit(0) == (mask == 2), "{} sign bit {} read as {:?}", C::CNAME, mask, q);
                    // one encoding per point
                    if q.y != C::BaseField::ZERO {
                        ensure!(bytes(&q)? == b, "{} bytes {:x?} written back as {:x?}", C::CNAME, b, bytes(&q)?);
                    }
                }
                Err(e) => return Err(format!("{} refused the abscissa {} of a point: {}", C::CNAME, x, e)),
            }
        }
        Some(_) => {
            s.class("not an abscissa");
            s.nontrivial();
            ensure!(r.is_err(), "{} accepted abscissa {} of no point: {:?}", C::CNAME, x, r);
        }
        None => {
            s.class("not below the order");
            s.nontrivial();
            ensure!(r.is_err(), "{} accepted abscissa {} not below the order: {:?}", C::CNAME, x, r);
        }
    }
    Ok(())
}

/// Mutations of serde forms never crash a decoder and never give an invalid value.
fn serde_noise<C: CurveRef>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let q = any_point::<C>(s);
    let x = elem::<C::BaseField>(s);
    let mut v = if s.bool() { serde_cbor::to_vec(&aff::<C>(q)).unwrap() } else { serde_cbor::to_vec(&x).unwrap() };
    for _ in 0..s.range(1, 3) {
        match s.upto(4) {
            0 => {
                let i = s.upto(v.len());
                v[i] ^= 1 << s.upto(8);
            }
            1 => {
                let i = s.upto(v.len());
                v[i] = s.below(256) as u8;
            }
            2 => {
                let k = s.upto(v.len()) + 1;
                v.truncate(k);
            }
            _ => v.push(s.below(256) as u8),
        }
    }
    s.note(|| format!("{} {:x?}", C::CNAME, v));
    s.nontrivial();
    if let Ok(a) = serde_cbor::from_slice::<AffinePoint<C>>(&v) {
        s.class("still a point");
        ensure!(ref_on_curve::<C>(&pt(&a)), "{} bytes {:x?} deserialized as {:?}, which is not on the curve", C::CNAME, v, a);
    }
    if let Ok(a) = serde_cbor::from_slice::<C::BaseField>(&v) {
        s.class("still an element");
        ensure!(big(a) < *p::<C::BaseField>(), "{} bytes {:x?} deserialized as an element not below the order", C::CNAME, v);
    }
    Ok(())
}

fn main() {
    Suite::new("S01", "a case is a field element (boundary residues included), a curve point (identity, points outside the prime-order group included), a sequence of values in one stream, or a byte string (canonical, at and above the order, truncated, abscissae with and without points, mutated serde forms); non-trivial = not a special element / not the identity, more than one value in a stream, bytes that must be refused")
        .assume("integers and squares are judged with big-integer arithmetic")
        .law("elements", 1_000_000, 20_000_000, |s| each_field!(s, field_trip))
        .law("points", 150_000, 4_000_000, |s| each_curve!(s, point_trip))
        .law("streams", 150_000, 3_000_000, |s| each_curve!(s, streams))
        .law("element bytes", 1_000_000, 20_000_000, |s| each_field!(s, field_bytes))
        .law("point bytes", 300_000, 8_000_000, |s| each_curve!(s, point_any_bytes))
        .law("serde noise", 500_000, 10_000_000, |s| each_curve!(s, serde_noise))
        .run()
}
