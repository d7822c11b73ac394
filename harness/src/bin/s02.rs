//! S02: proofs and verification keys keep their meaning across serialization.
use plonky::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_cbor::Value;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::refs::*;
use vh::*;

const POOL: usize = 16;
fn ser<T: Serialize>(x: &T) -> Result<Vec<u8>, String> {
    serde_cbor::to_vec(x).map_err(|e| format!("serialization failed: {}", e))
}
fn de<T: DeserializeOwned>(s: &mut Src, b: &[u8]) -> Result<Result<T, serde_cbor::Error>, String> {
    let reader = s.bool();
    catching(|| if reader { serde_cbor::from_reader(b) } else { serde_cbor::from_slice(b) }).map_err(|e| format!("decoder crashed: {}", e))
}
fn accepts<C, I>(vk: &VerificationKey<C>, pis: &[C::ScalarField], p: &Proof<C>, old: &[OldProof<C>], complete: bool) -> bool
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    matches!(catching(|| verify_proof::<C, I>(pis, p, old, vk, complete)), Ok(Ok(_)))
}

fn proof_trip<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + Serialize + DeserializeOwned,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let mut p = m.proof.clone();
    let honest = s.chance(1, 3);
    if !honest {
        // the meaning of any content is kept, also of what will be rejected: identity points,
        // other lengths, extreme values
        let o = made::<C, I>(s.upto(POOL));
        for _ in 0..s.range(1, 8) {
            let what = alter(s, &mut p, &o.proof);
            s.note(|| what);
        }
        if s.chance(1, 3) {
            p.c_wires.truncate(s.size(0, 9));
            let (l, r) = (s.size(0, 40), s.size(0, 40));
            p.halo_l = (0..l).map(|_| aff::<C>(point::<C>(s))).collect();
            p.halo_r = (0..r).map(|_| aff::<C>(point::<C>(s))).collect();
            let n = s.size(0, 30);
            p.o_below.o_old_proofs = (0..n).map(|_| elem(s)).collect();
            s.class("other lengths");
        }
        s.class("altered");
    } else {
        s.class("honest");
    }
    s.nontrivial();
    let b = ser(&p)?;
    let q: Proof<C> = de(s, &b)?.map_err(|e| format!("deserialization failed: {}", e))?;
    ensure!(same(&p, &q), "proof changed by the round trip: {:?} became {:?}", p, q);
    ensure!(ser(&q)? == b, "other bytes when serialized again");
    // parts on their own
    let x: SchnorrProof<C> = de(s, &ser(&p.schnorr_proof)?)?.map_err(|e| format!("schnorr proof: {}", e))?;
    ensure!(x.r == p.schnorr_proof.r && x.z1 == p.schnorr_proof.z1 && x.z2 == p.schnorr_proof.z2, "Schnorr proof changed by the round trip");
    let x: OpeningSet<C::ScalarField> = de(s, &ser(&p.o_right)?)?.map_err(|e| format!("opening set: {}", e))?;
    ensure!(x.to_vec() == p.o_right.to_vec(), "openings changed by the round trip");
    let l: Vec<Proof<C>> = de(s, &ser(&vec![p.clone(), m.proof.clone()])?)?.map_err(|e| format!("list of proofs: {}", e))?;
    ensure!(l.len() == 2 && same(&l[0], &p) && same(&l[1], &m.proof), "list of proofs changed by the round trip");
    if honest || s.chance(1, 4) {
        let complete = s.bool();
        let (x, y) = (accepts::<C, I>(&m.vk, &m.i.pis, &p, &m.old, complete), accepts::<C, I>(&m.vk, &m.i.pis, &q, &m.old, complete));
        ensure!(x == y, "verification answers {} for the proof and {} after the round trip", x, y);
        ensure!(!honest || y, "honest proof rejected after the round trip");
    }
    Ok(())
}

/// A key with any combination of its optional precomputations.
fn key<C: HaloCurve>(s: &mut Src, full: &VerificationKey<C>) -> VerificationKey<C> {
    let mut vk = full.clone();
    match s.upto(4) {
        0 => s.class("key with both precomputations"),
        1 => {
            vk.clear_msm_precomputation();
            s.class("key with FFT precomputation");
        }
        2 => {
            vk.clear_fft_precomputation();
            s.class("key with MSM precomputation");
        }
        _ => {
            vk.clear_all();
            s.class("key without precomputations");
        }
    }
    vk
}
/// One of the few circuits whose full keys are small enough to be decoded often.
fn small<C, I>(s: &mut Src) -> &'static (Made<C>, VerificationKey<C>)
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let k = s.upto(4);
    memo(format!("small {} {}", C::CNAME, k), || {
        let mut s = Src::seeded(splitmix(77 + k as u64 ^ hash_str(C::CNAME)));
        let i = loop {
            let i = instance::<C, I>(&mut s, Size { steps: k, publics: k, gadgets: false, bits: 128 });
            if i.c.degree() <= 16 {
                break i;
            }
        };
        s.seed_code_rng();
        let proof = i.c.generate_proof::<I>(&i.w, &[], k % 2 == 0).expect("honest proof");
        let full = i.c.to_vk();
        let mut vk = full.clone();
        vk.clear_msm_precomputation();
        let ch = proof.get_challenges(&i.pis, &[]).expect("challenges");
        let pending = OldProof { halo_g: proof.halo_g, halo_us: ch.halo_us };
        (Made { i, old: vec![], proof, vk, pending }, full)
    })
}
fn key_fields<C: HaloCurve>(a: &VerificationKey<C>, b: &VerificationKey<C>) -> bool {
    a.c_constants == b.c_constants
        && a.c_s_sigmas == b.c_s_sigmas
        && a.degree == b.degree
        && a.num_public_inputs == b.num_public_inputs
        && a.num_gates_without_pis == b.num_gates_without_pis
        && a.security_bits == b.security_bits
        && a.pedersen_g_msm_precomputation.is_some() == b.pedersen_g_msm_precomputation.is_some()
        && a.fft_precomputation.is_some() == b.fft_precomputation.is_some()
}
fn key_trip<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + Serialize + DeserializeOwned + Eq + Default,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let (m, full) = small::<C, I>(s);
    let mut vk = key(s, full);
    if s.chance(1, 4) {
        // any content: identity commitments, extreme numbers
        let n = s.upto(vk.c_constants.len());
        vk.c_constants[n] = aff::<C>(point::<C>(s));
        vk.degree = 1 << s.range(0, 30);
        vk.num_public_inputs = s.u64() as usize;
        vk.num_gates_without_pis = s.u64() as usize;
        vk.security_bits = s.upto(300);
        vk.c_s_sigmas.truncate(s.size(0, 6));
        s.class("any content");
        s.note(|| format!("{} {} {} {}", vk.degree, vk.num_public_inputs, vk.num_gates_without_pis, vk.security_bits));
        let b = ser(&vk)?;
        let k: VerificationKey<C> = de(s, &b)?.map_err(|e| format!("deserialization failed: {}", e))?;
        ensure!(key_fields(&vk, &k) && k == vk, "key changed by the round trip");
        return Ok(());
    }
    s.nontrivial();
    let b = ser(&vk)?;
    let k: VerificationKey<C> = de(s, &b)?.map_err(|e| format!("deserialization failed: {}", e))?;
    ensure!(key_fields(&vk, &k), "key changed by the round trip: {:?}/{:?}", (vk.degree, vk.num_public_inputs, vk.num_gates_without_pis), (k.degree, k.num_public_inputs, k.num_gates_without_pis));
    ensure!(k == vk && vk == k, "key not equal to itself after the round trip");
    ensure!(ser(&k)? == b, "other bytes when serialized again");
    // verification is the same
    let complete = s.bool();
    let got = catching(|| verify_proof::<C, I>(&m.i.pis, &m.proof, &[], &k, complete));
    match got {
        Ok(Ok(None)) if complete => {}
        Ok(Ok(Some(o))) if !complete => ensure!(o.halo_g == m.pending.halo_g && o.halo_us == m.pending.halo_us, "other pending check with the deserialized key"),
        Ok(Ok(_)) => return Err("wrong kind of answer with the deserialized key".into()),
        Ok(Err(e)) => return Err(format!("honest proof rejected with the deserialized key: {}", e)),
        Err(e) => return Err(format!("crash with the deserialized key: {}", e)),
    }
    let mut p = m.proof.clone();
    let what = alter(s, &mut p, &m.proof);
    if !same(&p, &m.proof) {
        let complete = p.halo_g != m.proof.halo_g;
        ensure!(!accepts::<C, I>(&k, &m.i.pis, &p, &[], complete), "accepted with the deserialized key and {}", what);
    }
    if !m.i.pis.is_empty() {
        let mut pis = m.i.pis.clone();
        let n = s.upto(pis.len());
        pis[n] = pis[n] + C::ScalarField::ONE;
        ensure!(!accepts::<C, I>(&k, &pis, &m.proof, &[], false), "other public inputs accepted with the deserialized key");
    }
    Ok(())
}

/// Damage to a byte string.
fn corrupt(s: &mut Src, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let n = b.len();
    match s.upto(9) {
        0 => {
            for _ in 0..s.range(1, 3) {
                let i = s.upto(n);
                b[i] ^= 1 << s.upto(8);
            }
            "bits flipped"
        }
        1 => {
            let i = s.upto(n);
            b[i] = s.u64() as u8;
            "byte replaced"
        }
        2 => {
            b.truncate(s.upto(n));
            "truncated"
        }
        3 => {
            for _ in 0..s.size(1, 40) {
                b.push(s.u64() as u8);
            }
            "extended"
        }
        4 => {
            // a run of the other object's bytes in the same place
            let i = s.upto(n.min(other.len()));
            let k = s.size(1, 200).min(n - i).min(other.len() - i);
            b[i..i + k].copy_from_slice(&other[i..i + k]);
            "spliced"
        }
        5 => {
            let i = s.upto(n);
            let k = s.size(1, 70).min(n - i);
            let v = *s.pick(&[0u8, 0xff, 0x40, 0x9f, 0xbf]);
            for x in &mut b[i..i + k] {
                *x = v;
            }
            "overwritten"
        }
        6 => {
            let i = s.upto(n);
            let k = s.size(1, 70).min(n - i);
            b.drain(i..i + k);
            "bytes removed"
        }
        7 => {
            let i = s.upto(n);
            let k = s.size(1, 70).min(n - i);
            let part = b[i..i + k].to_vec();
            let j = s.upto(n);
            for (q, x) in part.into_iter().enumerate() {
                b.insert(j + q, x);
            }
            "bytes repeated"
        }
        _ => {
            // headers announcing enormous contents
            let i = s.upto(n);
            let head = *s.pick(&[0x5bu8, 0x7b, 0x9b, 0xbb, 0x5a, 0x9a]);
            b[i] = head;
            for q in 1..9 {
                if i + q < n {
                    b[i + q] = s.u64() as u8;
                }
            }
            "huge length announced"
        }
    }
}
/// Damage to the structure.
fn reshape(s: &mut Src, v: &mut Value) -> String {
    // descend to a random place
    if s.chance(3, 4) {
        match v {
            Value::Map(m) if !m.is_empty() => {
                let k = m.keys().nth(s.upto(m.len())).unwrap().clone();
                let name = format!("{:?}.", k);
                return name + &reshape(s, m.get_mut(&k).unwrap());
            }
            Value::Array(a) if !a.is_empty() => {
                let i = s.upto(a.len());
                return format!("{}.", i) + &reshape(s, &mut a[i]);
            }
            _ => {}
        }
    }
    match v {
        Value::Map(m) if s.chance(2, 3) && m.len() > 1 => {
            let k = m.keys().nth(s.upto(m.len())).unwrap().clone();
            match s.upto(3) {
                0 => {
                    m.remove(&k);
                    format!("without {:?}", k)
                }
                1 => {
                    let k2 = m.keys().nth(s.upto(m.len())).unwrap().clone();
                    let (x, y) = (m[&k].clone(), m[&k2].clone());
                    m.insert(k.clone(), y);
                    m.insert(k2.clone(), x);
                    format!("{:?} exchanged with {:?}", k, k2)
                }
                _ => {
                    m.insert(Value::Text("more".into()), Value::Integer(1));
                    "more".into()
                }
            }
        }
        Value::Array(a) if s.chance(2, 3) && !a.is_empty() => {
            let (i, j) = (s.upto(a.len()), s.upto(a.len()));
            match s.upto(4) {
                0 => {
                    a.remove(i);
                    "element removed".into()
                }
                1 => {
                    let x = a[i].clone();
                    a.insert(j, x);
                    "element repeated".into()
                }
                2 => {
                    a.swap(i, j);
                    "elements exchanged".into()
                }
                _ => {
                    a.clear();
                    "emptied".into()
                }
            }
        }
        Value::Bytes(b) if s.chance(3, 4) && !b.is_empty() => {
            let i = s.upto(b.len());
            match s.upto(4) {
                0 => b[i] ^= 1 << s.upto(8),
                1 => b.truncate(i),
                2 => b.push(0),
                _ => {
                    let n = b.len();
                    for x in &mut b[i..n] {
                        *x = 0xff;
                    }
                }
            }
            "bytes changed".into()
        }
        v => {
            *v = match s.upto(8) {
                0 => Value::Null,
                1 => Value::Integer(s.u64() as i128),
                2 => Value::Integer(-(s.u64() as i128)),
                3 => Value::Text("x".into()),
                4 => Value::Array(vec![]),
                5 => Value::Map(Default::default()),
                6 => Value::Bytes((0..s.size(0, 70)).map(|_| s.u64() as u8).collect()),
                _ => Value::Bool(true),
            };
            format!("replaced by {:?}", v)
        }
    }
}
fn damaged<T: Serialize>(s: &mut Src, x: &T, other: &T) -> Result<(Vec<u8>, String), String> {
    let mut b = ser(x)?;
    let o = ser(other)?;
    let what = match s.upto(8) {
        0 => {
            // nothing but noise
            b = (0..s.size(0, 400)).map(|_| s.u64() as u8).collect();
            "noise".into()
        }
        1 | 2 | 3 => {
            let mut v: Value = serde_cbor::from_slice(&b).map_err(|e| e.to_string())?;
            let what = reshape(s, &mut v);
            b = ser(&v)?;
            what
        }
        _ => corrupt(s, &mut b, &o).to_string(),
    };
    Ok((b, what))
}
fn bad_proofs<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + Serialize + DeserializeOwned,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let o = made::<C, I>(s.upto(POOL));
    let good = ser(&m.proof)?;
    for _ in 0..12 {
        let (b, what) = damaged(s, &m.proof, &o.proof)?;
        s.note(|| what.clone());
        if b == good {
            continue;
        }
        s.nontrivial();
        let q: Proof<C> = match de(s, &b).map_err(|e| format!("{}: {}", what, e))? {
            Err(_) => {
                s.class("refused by the decoder");
                continue;
            }
            Ok(q) => q,
        };
        ensure!(b.len() >= good.len() || !good.starts_with(&b), "truncated proof of {} bytes decoded from {}", good.len(), b.len());
        ensure!(b.len() <= good.len() || !b.starts_with(&good), "proof followed by other bytes decoded");
        if same(&q, &m.proof) {
            s.class("decoded to the same proof");
            continue;
        }
        s.class("decoded to another proof");
        let again: Proof<C> = de(s, &ser(&q)?)?.map_err(|e| format!("decoded from damaged bytes ({}), but not again: {}", what, e))?;
        ensure!(same(&q, &again), "another proof after a round trip ({})", what);
        let complete = q.halo_g != m.proof.halo_g;
        match catching(|| verify_proof::<C, I>(&m.i.pis, &q, &m.old, &m.vk, complete)) {
            Ok(Ok(_)) => return Err(format!("accepted with {}", what)),
            Ok(Err(_)) => {}
            Err(_) => s.class("verifier panicked"),
        }
    }
    Ok(())
}
fn bad_keys<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + Serialize + DeserializeOwned + Eq + Default,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let (_, full) = small::<C, I>(s);
    let (_, other) = small::<C, I>(s);
    let mut vk = full.clone();
    // the multiplication tables are thousands of points; mostly leave them out
    if s.chance(9, 10) {
        vk.clear_msm_precomputation();
    }
    if s.bool() {
        vk.clear_fft_precomputation();
    }
    let mut other = other.clone();
    other.clear_msm_precomputation();
    let good = ser(&vk)?;
    for _ in 0..(if vk.pedersen_g_msm_precomputation.is_some() { 1 } else { 12 }) {
        let (b, what) = damaged(s, &vk, &other)?;
        s.note(|| what.clone());
        if b == good {
            continue;
        }
        s.nontrivial();
        let q: VerificationKey<C> = match de(s, &b).map_err(|e| format!("{}: {}", what, e))? {
            Err(_) => {
                s.class("refused by the decoder");
                continue;
            }
            Ok(q) => q,
        };
        ensure!(b.len() >= good.len() || !good.starts_with(&b), "truncated key of {} bytes decoded from {}", good.len(), b.len());
        ensure!(b.len() <= good.len() || !b.starts_with(&good), "key followed by other bytes decoded");
        s.class("decoded");
        let again: VerificationKey<C> = de(s, &ser(&q)?)?.map_err(|e| format!("decoded from damaged bytes ({}), but not again: {}", what, e))?;
        ensure!(q == again, "another key after a round trip ({})", what);
    }
    Ok(())
}
/// What is left out is refused, unless it is optional.
fn missing<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + Serialize + DeserializeOwned + Eq + Default,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let map = |b: &[u8]| match serde_cbor::from_slice(b) {
        Ok(Value::Map(m)) => Ok(m),
        x => Err(format!("not a map: {:?}", x)),
    };
    s.nontrivial();
    let (m, full) = small::<C, I>(s);
    let keys = map(&ser(&m.proof)?)?;
    let k = keys.keys().nth(s.upto(keys.len())).unwrap().clone();
    s.note(|| format!("proof without {:?}", k));
    let mut less = keys.clone();
    less.remove(&k);
    ensure!(de::<Proof<C>>(s, &ser(&Value::Map(less))?)?.is_err(), "proof without {:?} decoded", k);
    let mut vk = full.clone();
    vk.clear_msm_precomputation();
    let keys = map(&ser(&vk)?)?;
    let k = keys.keys().nth(s.upto(keys.len())).unwrap().clone();
    s.note(|| format!("key without {:?}", k));
    let mut less = keys.clone();
    less.remove(&k);
    let r: Result<VerificationKey<C>, _> = de(s, &ser(&Value::Map(less))?)?;
    if k == Value::Text("fft_precomputation".into()) {
        vk.clear_fft_precomputation();
        let r = r.map_err(|e| format!("key without precomputation refused: {}", e))?;
        ensure!(r == vk, "another key without its precomputation");
    } else {
        ensure!(r.is_err(), "key without {:?} decoded", k);
    }
    // a proof is no key and a key is no proof
    ensure!(de::<VerificationKey<C>>(s, &ser(&m.proof)?)?.is_err(), "key decoded from a proof");
    ensure!(de::<Proof<C>>(s, &ser(&vk)?)?.is_err(), "proof decoded from a key");
    Ok(())
}
fn proof_trip_l(s: &mut Src) -> Res {
    each_pair!(s, proof_trip)
}
fn key_trip_l(s: &mut Src) -> Res {
    each_pair!(s, key_trip)
}
fn bad_proofs_l(s: &mut Src) -> Res {
    each_pair!(s, bad_proofs)
}
fn bad_keys_l(s: &mut Src) -> Res {
    each_pair!(s, bad_keys)
}
fn missing_l(s: &mut Src) -> Res {
    each_pair!(s, missing)
}
fn main() {
    Suite::new("S02", "Proofs of a pool of circuits on all curve pairs, honest (some accumulating old proofs) or with any altered content, and keys with every combination of precomputations, through CBOR (slice and reader); damage: bits, bytes, truncation, extension, splices, runs, removals, repetitions, huge announced lengths, structural edits, noise. Non-trivial: the bytes differ from the original's (damage), or anything was written and read (round trips).")
        .assume("CBOR (serde_cbor) is the format; verification keys are trusted, so damaged ones are decoded only")
        .law("proofs survive", 400, 20000, proof_trip_l)
        .law("keys survive", 120, 5000, key_trip_l)
        .law("damaged proofs", 400, 40000, bad_proofs_l)
        .law("damaged keys", 400, 40000, bad_keys_l)
        .law("missing parts", 200, 4000, missing_l)
        .run();
}
