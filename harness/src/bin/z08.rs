//! Z08: the verifier answers malformed proofs with an error, not a crash.
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::halo_n;
use plonky::*;
use vh::gen::*;
use vh::proofs::*;
use vh::refs::*;
use vh::*;

const POOL: usize = 12;

/// Points on and off the curve, the identity also with coordinates.
fn wild<C: HaloCurve + CurveRef>(s: &mut Src) -> AffinePoint<C>
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    match s.upto(5) {
        0 => AffinePoint::<C>::ZERO,
        1 => AffinePoint { x: elem(s), y: elem(s), zero: true },
        2 => AffinePoint { x: elem(s), y: elem(s), zero: false },
        3 => AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: false },
        _ => aff::<C>(any_point::<C>(s)),
    }
}
fn resize<T: Clone>(s: &mut Src, v: &mut Vec<T>, fresh: impl Fn(&mut Src) -> T) -> String {
    let was = v.len();
    match s.upto(6) {
        0 => v.clear(),
        1 => {
            v.pop();
        }
        2 => v.push(fresh(s)),
        3 => {
            let n = s.size(0, 70);
            while v.len() < n {
                v.push(fresh(s));
            }
            v.truncate(n);
        }
        4 if was > 0 => {
            let i = s.upto(was);
            v.remove(i);
        }
        _ => {
            if was > 0 {
                let i = s.upto(was);
                v[i] = fresh(s);
            }
        }
    }
    format!("{} -> {}", was, v.len())
}
fn values<F: FieldRef>(s: &mut Src, v: &mut Vec<F>) -> String {
    resize(s, v, |s| elem(s))
}
fn points<C: HaloCurve + CurveRef>(s: &mut Src, v: &mut Vec<AffinePoint<C>>) -> String
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    resize(s, v, |s| wild(s))
}
fn anywhere<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    malformed::<C, I>(s, false)
}
/// Only the opening argument, which is checked last.
fn deep<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    malformed::<C, I>(s, true)
}
fn malformed<C, I>(s: &mut Src, deep: bool) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let mut p = m.proof.clone();
    let mut old = m.old.clone();
    let mut pis = m.i.pis.clone();
    let mut what = vec![];
    for _ in 0..s.size(1, 5) {
        let mut t;
        let kind = if deep { s.range(4, 9) } else { s.upto(18) };
        let name = match kind {
            0 => { t = points(s, &mut p.c_wires); "c_wires" }
            1 => { p.c_plonk_z = wild(s); t = String::new(); "c_plonk_z" }
            2 => { t = points(s, &mut p.c_plonk_t); "c_plonk_t" }
            3 => { p.c_pis_quotient = wild(s); t = String::new(); "c_pis_quotient" }
            4 => { t = points(s, &mut p.halo_l); "halo_l" }
            5 => { t = points(s, &mut p.halo_r); "halo_r" }
            6 => {
                // both, consistently
                t = points(s, &mut p.halo_l);
                let n = p.halo_l.len();
                while p.halo_r.len() < n {
                    p.halo_r.push(wild(s));
                }
                p.halo_r.truncate(n);
                "halo_l and halo_r"
            }
            7 => { p.halo_g = wild(s); t = String::new(); "halo_g" }
            8 => { p.schnorr_proof.r = wild(s); t = String::new(); "schnorr r" }
            9 => { p.schnorr_proof.z1 = elem(s); p.schnorr_proof.z2 = elem(s); t = String::new(); "schnorr z" }
            10 => { t = values(s, &mut pis); "public inputs" }
            11 => {
                t = resize(s, &mut old, |s| {
                    let n = s.size(0, 40);
                    OldProof { halo_g: wild(s), halo_us: many(s, n) }
                });
                "old proofs"
            }
            12 => {
                // old proofs and their openings, consistently
                t = resize(s, &mut old, |s| {
                    let n = s.size(0, 12);
                    OldProof { halo_g: wild(s), halo_us: many(s, n) }
                });
                for o in sets_mut(&mut p) {
                    o.o_old_proofs.resize(old.len(), C::ScalarField::ZERO);
                }
                "old proofs and openings"
            }
            k => {
                let set = s.upto(4);
                t = String::new();
                for (n, o) in sets_mut(&mut p).iter_mut().enumerate() {
                    if set == 3 || set == n {
                        t += &match k {
                            13 => values(s, &mut o.o_constants),
                            14 => values(s, &mut o.o_plonk_sigmas),
                            15 => values(s, &mut o.o_wires),
                            16 => values(s, &mut o.o_plonk_t),
                            _ => {
                                o.o_plonk_z = elem(s);
                                o.o_pi_quotient = elem(s);
                                values(s, &mut o.o_old_proofs)
                            }
                        };
                        t.push(' ');
                    }
                }
                ["o_constants", "o_plonk_sigmas", "o_wires", "o_plonk_t", "o_old_proofs"][k - 13]
            }
        };
        if t.is_empty() {
            t = "replaced".into();
        }
        what.push(format!("{} {}", name, t));
    }
    s.note(|| format!("{} rows: {}", m.i.c.degree(), what.join(", ")));
    s.nontrivial();
    let mut vk = m.vk.clone();
    if s.bool() {
        vk.clear_fft_precomputation();
    }
    let complete = s.bool();
    match catching(|| verify_proof::<C, I>(&pis, &p, &old, &vk, complete)) {
        Err(e) => Err(format!("verification panicked ({}) on a proof with {}", e, what.join(", "))),
        Ok(Ok(_)) => {
            let whole = same(&p, &m.proof) && pis == m.i.pis && old.len() == m.old.len();
            ensure!(whole || lists_differ_only_in_identity(&p, &m.proof), "accepted a proof with {}", what.join(", "));
            s.class("accepted, unchanged");
            Ok(())
        }
        Ok(Err(_)) => {
            s.class("rejected");
            Ok(())
        }
    }
}
/// The identity has no coordinates that mean anything.
fn lists_differ_only_in_identity<C: HaloCurve>(p: &Proof<C>, q: &Proof<C>) -> bool {
    let clean = |p: &Proof<C>| {
        let mut p = p.clone();
        for (_, l) in points_mut(&mut p) {
            for x in l {
                if x.zero {
                    *x = AffinePoint::<C>::ZERO;
                }
            }
        }
        p
    };
    same(&clean(p), &clean(q))
}
/// Nothing of an honest proof is kept.
fn random<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let log = m.i.c.degree().trailing_zeros() as usize;
    let shaped = s.chance(3, 4);
    let len = |s: &mut Src, n: usize| if shaped { n } else { s.size(0, n + 4) };
    let spread = s.bool();
    let pts = |s: &mut Src, n: usize| -> Vec<AffinePoint<C>> { (0..n).map(|_| if spread || s.chance(3, 4) { aff::<C>(any_point::<C>(s)) } else { wild(s) }).collect() };
    let nold = s.size(0, 3);
    let old: Vec<OldProof<C>> = (0..nold).map(|_| { let n = s.size(0, 10); OldProof { halo_g: pts(s, 1)[0], halo_us: many(s, n) } }).collect();
    let set = |s: &mut Src| {
        let l: Vec<usize> = vec![len(s, 6), len(s, 6), len(s, 9), len(s, 7), len(s, nold)];
        OpeningSet {
            o_constants: many(s, l[0]),
            o_plonk_sigmas: many(s, l[1]),
            o_wires: many(s, l[2]),
            o_plonk_z: elem(s),
            o_plonk_t: many(s, l[3]),
            o_old_proofs: many(s, l[4]),
            o_pi_quotient: elem(s),
        }
    };
    let (a, b, c, d) = (len(s, 9), len(s, 7), len(s, log), len(s, log));
    let p = Proof {
        c_wires: pts(s, a),
        c_plonk_z: pts(s, 1)[0],
        c_plonk_t: pts(s, b),
        c_pis_quotient: pts(s, 1)[0],
        o_local: set(s),
        o_right: set(s),
        o_below: set(s),
        halo_l: pts(s, c),
        halo_r: pts(s, d),
        halo_g: pts(s, 1)[0],
        schnorr_proof: SchnorrProof { r: pts(s, 1)[0], z1: elem(s), z2: elem(s) },
    };
    let npis = if shaped { m.i.pis.len() } else { s.size(0, 30) };
    let pis: Vec<C::ScalarField> = many(s, npis);
    if shaped {
        s.nontrivial();
    }
    match catching(|| verify_proof::<C, I>(&pis, &p, &old, &m.vk, s.bool())) {
        Err(e) => Err(format!("verification panicked ({})", e)),
        Ok(Ok(_)) => Err("a random proof was accepted".into()),
        Ok(Err(_)) => Ok(()),
    }
}
/// One point of the opening argument is off the curve, and the challenges still exist.
fn off_curve<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let mut p = m.proof.clone();
    let bits = m.vk.security_bits;
    let b = |x: &[C::ScalarField]| -> Vec<C::BaseField> { x.iter().map(|x| x.try_convert().expect("an honest proof's values fit")).collect() };
    let mut ch = Challenger::<C::BaseField>::new(bits);
    ch.observe_elements(&b(&m.i.pis));
    ch.observe_affine_points(&p.c_wires);
    ch.get_2_challenges();
    ch.observe_affine_point(p.c_plonk_z);
    ch.get_challenge();
    ch.observe_affine_points(&p.c_plonk_t);
    ch.observe_affine_point(p.c_pis_quotient);
    for o in &m.old {
        ch.observe_affine_point(o.halo_g);
        ch.observe_elements(&b(&o.halo_us));
    }
    ch.get_challenge();
    for o in p.all_opening_sets() {
        ch.observe_elements(&b(&o.to_vec()));
    }
    ch.get_3_challenges();
    let n = p.halo_l.len();
    let (at, right) = (s.upto(n), s.bool());
    let mut found = false;
    for _ in 0..100 {
        let q = AffinePoint { x: if s.chance(1, 3) { elem(s) } else { uniform(s) }, y: if s.chance(1, 3) { elem(s) } else { uniform(s) }, zero: false };
        *(if right { &mut p.halo_r } else { &mut p.halo_l }).get_mut(at).unwrap() = q;
        let mut t = ch.clone();
        found = !ref_on_curve::<C>(&pt(&q))
            && (0..n).all(|i| {
                t.observe_affine_points(&[p.halo_l[i], p.halo_r[i]]);
                match t.get_challenge().try_convert::<C::ScalarField>() {
                    Ok(r) => halo_n::<C>(&r.to_canonical_bool_vec()[..bits]).square_root().is_some(),
                    Err(_) => false,
                }
            });
        if found {
            break;
        }
    }
    if found {
        s.nontrivial();
    }
    let what = format!("halo_{}[{}] of {} off the curve (challenges exist: {})", if right { "r" } else { "l" }, at, n, found);
    s.note(|| what.clone());
    match catching(|| verify_proof::<C, I>(&m.i.pis, &p, &m.old, &m.vk, s.bool())) {
        Err(e) => Err(format!("verification panicked ({}) on a proof with {}", e, what)),
        Ok(Ok(_)) => Err(format!("accepted a proof with {}", what)),
        Ok(Err(_)) => Ok(()),
    }
}
fn off_curve_l(s: &mut Src) -> Res {
    each_pair!(s, off_curve)
}
fn malformed_l(s: &mut Src) -> Res {
    each_pair!(s, anywhere)
}
fn deep_l(s: &mut Src) -> Res {
    each_pair!(s, deep)
}
fn random_l(s: &mut Src) -> Res {
    each_pair!(s, random)
}
fn main() {
    Suite::new("Z08", "Honest proofs (4 to 64 rows, all curve pairs) with up to five malformations: lists of commitments, openings, round messages, public inputs or old proofs emptied, shortened, extended, of any length up to 70, points off the curve or the identity with and without coordinates, boundary values, public inputs that do not fit the other field; single round messages off the curve chosen so that all challenges exist; and proofs made of random parts. Verified with debug assertions, completely and deferred, with and without precomputations. Non-trivial: malformed proofs (with existing challenges, for round messages); random ones when all lengths are right.")
        .assume("field elements are in canonical range, the only ones the public interface makes; the verification key is one a circuit has")
        .law("malformed proofs are answered", 3000, 60000, malformed_l)
        .law("malformed opening arguments are answered", 600, 20000, deep_l)
        .law("round messages off the curve are answered", 250, 10000, off_curve_l)
        .law("random proofs are answered", 1500, 40000, random_l)
        .run();
}
