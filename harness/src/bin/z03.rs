//! Z03: any altered proof component is rejected.
use plonky::plonk_util::commit_polynomials;
use plonky::polynomial::Polynomial;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::prover::*;
use vh::refs::*;
use vh::*;

const POOL: usize = 16;
fn accepts<C, I>(vk: &VerificationKey<C>, pis: &[C::ScalarField], p: &Proof<C>, old: &[OldProof<C>], complete: bool) -> bool
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    matches!(catching(|| verify_proof::<C, I>(pis, p, old, vk, complete)), Ok(Ok(_)))
}
fn altered<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let o = made::<C, I>(s.upto(POOL));
    s.note(|| format!("{} rows, {} public inputs, {} old proofs", m.i.c.degree(), m.i.pis.len(), m.old.len()));
    for _ in 0..6 {
        let mut p = m.proof.clone();
        let mut what = alter(s, &mut p, &o.proof);
        if s.chance(1, 6) {
            what += &alter(s, &mut p, &o.proof);
        }
        if same(&p, &m.proof) {
            continue;
        }
        s.nontrivial();
        s.note(|| what.clone());
        // complete verification accepts a subset, but only it looks at the folded generator
        let complete = p.halo_g != m.proof.halo_g && s.bool();
        ensure!(!accepts::<C, I>(&m.vk, &m.i.pis, &p, &m.old, complete), "accepted with {}", what);
    }
    Ok(())
}
/// Several components altered together so that the changes may cancel: Schnorr responses scaled by
/// a common factor, openings or points moved by opposite amounts, messages exchanged or negated as
/// wholes.
fn joint<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    s.note(|| format!("{} rows, {} old proofs", m.i.c.degree(), m.old.len()));
    for _ in 0..5 {
        let mut p = m.proof.clone();
        let what = match s.upto(9) {
            0 | 1 => {
                // signs, cube roots of unity and others
                let third = (vh::refs::p::<C::ScalarField>() - 1u32) / 3u32;
                let f: C::ScalarField = match s.upto(4) {
                    0 | 1 => C::ScalarField::NEG_ONE,
                    2 => fe(&big(uniform_from::<C::ScalarField>(s.u64())).modpow(&third, vh::refs::p::<C::ScalarField>())),
                    _ => elem(s),
                };
                let f = if s.chance(1, 4) { -f } else { f };
                p.schnorr_proof.z1 = p.schnorr_proof.z1 * f;
                p.schnorr_proof.z2 = p.schnorr_proof.z2 * f;
                let mut what = format!("both responses multiplied by {}", show(f));
                if s.chance(1, 3) {
                    p.halo_g = -p.halo_g;
                    what += ", the folded generator negated";
                }
                what
            }
            2 => {
                p.halo_g = -p.halo_g;
                if s.bool() {
                    p.schnorr_proof.z1 = -p.schnorr_proof.z1;
                } else {
                    p.schnorr_proof.r = -p.schnorr_proof.r;
                }
                "folded generator and a part of the Schnorr proof negated".into()
            }
            3 => {
                // two opened values, by opposite amounts
                let d = nonzero::<C::ScalarField>(s);
                let mut lists = scalars_mut(&mut p);
                let (k, l) = (s.upto(lists.len()), s.upto(lists.len()));
                let i = s.upto(lists[k].1.len());
                *lists[k].1[i] = *lists[k].1[i] + d;
                let l = if s.bool() { k } else { l };
                let j = s.upto(lists[l].1.len());
                *lists[l].1[j] = *lists[l].1[j] - d;
                format!("value {} of list {} and value {} of list {} moved by opposite amounts", i, k, j, l)
            }
            4 => {
                // two points, by opposite amounts
                let g = C::GENERATOR_AFFINE;
                let mut lists = points_mut(&mut p);
                let (k, l) = (s.upto(lists.len()), s.upto(lists.len()));
                let i = s.upto(lists[k].1.len());
                let x = aff::<C>(ref_add::<C>(pt(&*lists[k].1[i]), pt(&g)));
                *lists[k].1[i] = x;
                let l = if s.bool() { k } else { l };
                let j = s.upto(lists[l].1.len());
                let x = aff::<C>(ref_add::<C>(pt(&*lists[l].1[j]), pt(&-g)));
                *lists[l].1[j] = x;
                format!("point {} of list {} and point {} of list {} moved by opposite amounts", i, k, j, l)
            }
            5 => {
                let mut lists = points_mut(&mut p);
                let k = s.upto(lists.len());
                lists[k].1.iter_mut().for_each(|x| **x = -**x);
                format!("all of {} negated", lists[k].0)
            }
            6 => {
                match s.upto(3) {
                    0 => std::mem::swap(&mut p.halo_l, &mut p.halo_r),
                    1 => {
                        p.halo_l.reverse();
                        p.halo_r.reverse();
                    }
                    _ => {
                        let i = s.upto(p.halo_l.len());
                        std::mem::swap(&mut p.halo_l[i], &mut p.halo_r[i]);
                    }
                }
                "round messages exchanged".into()
            }
            7 => {
                let (i, j) = (s.upto(3), s.upto(3));
                let sets = sets_mut(&mut p);
                let (a, b) = (sets[i].clone(), sets[j].clone());
                *sets_mut(&mut p)[i] = b;
                *sets_mut(&mut p)[j] = a;
                format!("opening sets {} and {} exchanged", i, j)
            }
            _ => {
                // the same value in all three sets
                let (l, w, d) = (s.upto(7), s.u64() as usize, nonzero::<C::ScalarField>(s));
                for o in sets_mut(&mut p).iter_mut() {
                    let mut lists = opened_mut(o);
                    if !lists[l].1.is_empty() {
                        let i = w % lists[l].1.len();
                        *lists[l].1[i] = *lists[l].1[i] + d;
                    }
                }
                format!("list {} moved alike in all sets", l)
            }
        };
        if same(&p, &m.proof) {
            continue;
        }
        s.nontrivial();
        s.note(|| what.clone());
        ensure!(!accepts::<C, I>(&m.vk, &m.i.pis, &p, &m.old, p.halo_g != m.proof.halo_g), "accepted with {}", what);
    }
    Ok(())
}
/// Whole messages exchanged between proofs, of the same circuit if possible.
fn exchanged<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let second = memo(format!("second {} {}", C::CNAME, m as *const _ as usize), || m.i.c.generate_proof::<I>(&m.i.w, &m.old, true).expect("honest proof"));
    let other = if s.chance(1, 4) { &made::<C, I>(s.upto(POOL)).proof } else { second };
    let mut p = m.proof.clone();
    let mut theirs = 0;
    for k in 0..10 {
        if s.chance(1, 3) {
            theirs += 1;
            match k {
                0 => p.c_wires = other.c_wires.clone(),
                1 => p.c_plonk_z = other.c_plonk_z,
                2 => p.c_plonk_t = other.c_plonk_t.clone(),
                3 => p.c_pis_quotient = other.c_pis_quotient,
                4 => p.o_local = other.o_local.clone(),
                5 => p.o_right = other.o_right.clone(),
                6 => p.o_below = other.o_below.clone(),
                7 => {
                    p.halo_l = other.halo_l.clone();
                    p.halo_r = other.halo_r.clone();
                }
                8 => p.halo_g = other.halo_g,
                _ => p.schnorr_proof = other.schnorr_proof,
            }
        }
    }
    if same(&p, &m.proof) || same(&p, other) {
        s.discarded = true;
        return Ok(());
    }
    s.nontrivial();
    s.note(|| format!("{} messages of another proof", theirs));
    ensure!(!accepts::<C, I>(&m.vk, &m.i.pis, &p, &m.old, true), "accepted with {} messages of another proof", theirs);
    Ok(())
}
/// False openings that satisfy everything but the inner-product argument, or everything but the
/// folded generator.
fn crafted<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let n = m.i.c.degree();
    let mut rows: Vec<Vec<C::ScalarField>> = (0..n).map(|i| wire_row(&m.i.w, i)).collect();
    let mut claim = None;
    // the wires may be false as well
    if s.chance(1, 3) {
        rows[s.upto(n)][s.upto(WIRES)] = elem(s);
        s.class("false wires");
    }
    if s.chance(1, 3) && !m.i.pis.is_empty() {
        let mut v = m.i.pis.clone();
        let i = s.upto(v.len());
        v[i] = C::ScalarField::from_canonical_u64(s.u64());
        claim = Some(v);
        s.class("false inputs");
    }
    let pis = claim.clone().unwrap_or_else(|| m.i.pis.clone());
    let lies: Vec<(usize, usize, u64, u64)> = (0..s.size(1, 4)).map(|_| (s.weighted(&[2, 1, 1]), s.upto(7), s.u64(), s.u64())).collect();
    let honest = std::cell::Cell::new(false);
    let lie = |o: &mut [OpeningSet<C::ScalarField>; 3], seen: &Seen<C::ScalarField>| {
        let before = o.clone();
        for &(set, list, which, value) in &lies {
            let mut lists = opened_mut(&mut o[set]);
            let list = &mut lists[list].1;
            // the verifier compares the old proofs' local openings itself
            if !list.is_empty() && (set > 0 || list.len() != m.old.len()) {
                let i = which as usize % list.len();
                *list[i] = *list[i] + uniform_from::<C::ScalarField>(value);
            }
        }
        o[0].o_old_proofs = before[0].o_old_proofs.clone();
        fix_public(&m.i.c, &pis, o, seen);
        fix_quotient::<C, I>(o, seen, n);
        honest.set((0..3).all(|k| o[k].to_vec() == before[k].to_vec()));
    };
    let fold = s.bool();
    let plan = Plan { openings: Some(&lie), fold, claim: claim.clone(), ..Plan::default() };
    let (p, pis) = match prove::<C, I>(&m.i.c, &rows, &m.old, &plan) {
        Ok(x) => x,
        Err(_) => {
            s.discarded = true;
            return Ok(());
        }
    };
    if honest.get() {
        // the repairs undid the lie
        s.discarded = true;
        return Ok(());
    }
    s.note(|| format!("{} rows, lies {:?}, folded generator {}", n, lies, if fold { "solved for" } else { "honest" }));
    if fold {
        // only the folded generator is wrong
        if accepts::<C, I>(&m.vk, &pis, &p, &m.old, false) {
            s.nontrivial();
            s.class("fails only the folded generator");
        } else {
            s.class("solved for, fails more");
        }
        ensure!(!accepts::<C, I>(&m.vk, &pis, &p, &m.old, true), "false openings {:?} accepted with a folded generator solved for", lies);
    } else {
        s.nontrivial();
        s.class("fails the inner-product argument");
        ensure!(!accepts::<C, I>(&m.vk, &pis, &p, &m.old, false), "false openings {:?} accepted", lies);
    }
    Ok(())
}
/// One equation of the verifier at a time: the constraint identity, the public inputs, the
/// evaluation of the old proofs.
fn single<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    let c = &m.i.c;
    let n = c.degree();
    let mut rows: Vec<Vec<C::ScalarField>> = (0..n).map(|i| wire_row(&m.i.w, i)).collect();
    let mut old = m.old.clone();
    let mut old_polys: Vec<Vec<C::ScalarField>> = old.iter().map(|o| o.coeffs()).collect();
    let mut claim = None;
    let what = match s.upto(4) {
        0 => {
            let (i, j) = (s.upto(n), s.upto(WIRES));
            rows[i][j] = rows[i][j] + nonzero(s);
            let w = Witness::new(rows.clone());
            if gate_violation::<C, I>(c, &w).is_none() && copy_violation(c, &w).is_none() {
                s.discarded = true;
                return Ok(());
            }
            "constraint identity"
        }
        1 if !m.i.pis.is_empty() => {
            let mut v = m.i.pis.clone();
            let i = s.upto(v.len());
            v[i] = v[i] + C::ScalarField::from_canonical_u64(s.range(1, 1 << 30) as u64);
            if !fits::<C>(v[i]) {
                s.discarded = true;
                return Ok(());
            }
            claim = Some(v);
            "public inputs"
        }
        2 => {
            // an accumulator that closes although it skips a step
            let w = Witness::new(rows.clone());
            if copy_violation(c, &w).is_some() {
                return Err("the pool's witness is broken".into());
            }
            let at = s.upto(n);
            let d = nonzero::<C::ScalarField>(s);
            if d == C::ScalarField::ONE {
                s.discarded = true;
                return Ok(());
            }
            let bend = move |mut z: Vec<C::ScalarField>| {
                z[at] = z[at] * d;
                z
            };
            let (p, pis) = prove::<C, I>(c, &rows, &old, &Plan { accumulator: Some(&bend), ..Plan::default() })?;
            s.nontrivial();
            s.class("accumulator");
            ensure!(!accepts::<C, I>(&m.vk, &pis, &p, &old, false), "accepted with the accumulator at row {} multiplied by {}", at, show(d));
            return Ok(());
        }
        _ => {
            // an old proof whose generator commits to something else
            let poly = coeffs::<C::ScalarField>(s, n);
            let mut poly = poly;
            poly.resize(n, C::ScalarField::ZERO);
            let us: Vec<C::ScalarField> = if old.is_empty() { many(s, log2(n)) } else { old[0].halo_us.clone() };
            if us.iter().any(|u| u.is_zero()) {
                s.discarded = true;
                return Ok(());
            }
            let g = commit_polynomials(&[Polynomial::from(poly.clone())], &c.pedersen_g_msm_precomputation, c.pedersen_h, false)[0].to_affine();
            let at = s.upto(old.len() + 1);
            old.insert(at, OldProof { halo_g: g, halo_us: us });
            old_polys.insert(at, poly);
            "old proof evaluation"
        }
    };
    let plan = Plan { claim, old: Some(old_polys), ..Plan::default() };
    let (p, pis) = match prove::<C, I>(c, &rows, &old, &plan) {
        Ok(x) => x,
        Err(_) => {
            s.discarded = true;
            return Ok(());
        }
    };
    s.nontrivial();
    s.class(what);
    ensure!(!accepts::<C, I>(&m.vk, &pis, &p, &old, false), "accepted although the {} does not hold", what);
    Ok(())
}
fn log2(n: usize) -> usize {
    n.trailing_zeros() as usize
}
/// The adversary's prover proves what is true.
fn baseline<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let m = made::<C, I>(s.upto(POOL));
    ensure!(accepts::<C, I>(&m.vk, &m.i.pis, &m.proof, &m.old, true), "honest proof rejected");
    let rows: Vec<Vec<C::ScalarField>> = (0..m.i.c.degree()).map(|i| wire_row(&m.i.w, i)).collect();
    let (p, pis) = prove::<C, I>(&m.i.c, &rows, &m.old, &Plan { blinding: s.bool(), ..Plan::default() })?;
    s.nontrivial();
    ensure!(pis == m.i.pis, "public inputs {} read, {} expected", shows(&pis), shows(&m.i.pis));
    ensure!(accepts::<C, I>(&m.vk, &pis, &p, &m.old, true), "proof of the reference prover rejected");
    Ok(())
}
fn altered_l(s: &mut Src) -> Res {
    each_pair!(s, altered)
}
fn joint_l(s: &mut Src) -> Res {
    each_pair!(s, joint)
}
fn exchanged_l(s: &mut Src) -> Res {
    each_pair!(s, exchanged)
}
fn crafted_l(s: &mut Src) -> Res {
    each_pair!(s, crafted)
}
fn single_l(s: &mut Src) -> Res {
    each_pair!(s, single)
}
fn baseline_l(s: &mut Src) -> Res {
    each_pair!(s, baseline)
}
fn main() {
    Suite::new("Z03", "Honest proofs (4 to 64 rows, all curve pairs, up to three accumulated proofs), altered in one or two components (replaced by other points and values, negated, off by one, doubled, exchanged within the proof or with another proof) or several together so that the changes might cancel, spliced from two proofs, or crafted by a prover of our own: false openings with the constraint and public-input equations repaired so that only the inner-product argument or only the folded generator is wrong, and proofs that fail only the constraint identity, the accumulator, the public inputs or an old proof's evaluation. Non-trivial: the proof really differs, or the crafted one fails exactly the equation aimed at.")
        .assume("altered components are valid points and field elements and lists keep their lengths (see Z08 for others)")
        .law("the reference prover's honest proofs are accepted", 24, 200, baseline_l)
        .law("altered components are rejected", 250, 20000, altered_l)
        .law("components altered together are rejected", 200, 16000, joint_l)
        .law("spliced proofs are rejected", 120, 8000, exchanged_l)
        .law("false openings are rejected", 160, 4000, crafted_l)
        .law("each equation is decisive", 160, 4000, single_l)
        .run();
}
