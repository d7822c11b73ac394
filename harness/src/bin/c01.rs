//! C01: every representation of curve points obeys the group law, and validity is curve membership.
use num::bigint::BigUint;
use num::{Integer, One};
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn sh<C: CurveRef>(q: &Pt<C>) -> String {
    match q {
        None => "O".into(),
        Some((x, y)) => format!("({},{})", show(*x), show(*y)),
    }
}
fn aff_is<C: CurveRef>(what: &str, got: AffinePoint<C>, want: &Pt<C>) -> Res {
    ensure!(pt(&got) == *want, "{} {}: got {}, expected {}", C::CNAME, what, sh::<C>(&pt(&got)), sh::<C>(want));
    Ok(())
}
fn proj_is<C: CurveRef>(what: &str, got: ProjectivePoint<C>, want: &Pt<C>) -> Res {
    let g = pt_proj(&got).map_err(|e| format!("{} {}: {}", C::CNAME, what, e))?;
    ensure!(g == *want, "{} {}: got {}, expected {}", C::CNAME, what, sh::<C>(&g), sh::<C>(want));
    Ok(())
}

fn second<C: CurveRef>(s: &mut Src, a: &Pt<C>) -> Pt<C>
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => any_point::<C>(s),
        1 => {
            s.class("equal");
            *a
        }
        2 => {
            s.class("opposite");
            ref_neg::<C>(*a)
        }
        3 => ref_add::<C>(*a, *a),
        // same ordinate, different abscissa
        _ => {
            let q = same_y::<C>(*a);
            if q != *a {
                s.class("same y");
            }
            if s.chance(1, 3) {
                ref_neg::<C>(q)
            } else {
                q
            }
        }
    }
}

fn pairs<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let a = any_point::<C>(s);
    let b = second::<C>(s, &a);
    let sum = ref_add::<C>(a, b);
    let (aa, ba) = (aff::<C>(a), aff::<C>(b));
    let (ap, bp) = (proj::<C>(s, a), proj::<C>(s, b));
    s.note(|| format!("{} {} {}", C::CNAME, sh::<C>(&a), sh::<C>(&b)));
    if a.is_some() && b.is_some() {
        s.nontrivial();
    }
    proj_is("affine + affine", aa + ba, &sum)?;
    proj_is("projective + affine", ap + ba, &sum)?;
    proj_is("projective + projective", ap + bp, &sum)?;
    proj_is("commuted projective sum", bp + ap, &sum)?;
    proj_is("scaled projective + negated affine", ap + (-ba), &ref_add::<C>(a, ref_neg::<C>(b)))?;
    let eq = a == b;
    ensure!((aa == ba) == eq, "{} affine equality of {} and {}", C::CNAME, sh::<C>(&a), sh::<C>(&b));
    ensure!((ap == bp) == eq && (bp == ap) == eq, "{} projective equality of {} and {}", C::CNAME, sh::<C>(&a), sh::<C>(&b));
    ensure!((aa != ba) != eq && (ap != bp) != eq, "{} inequality", C::CNAME);
    Ok(())
}

fn singles<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let a = any_point::<C>(s);
    let aa = aff::<C>(a);
    let ap = proj::<C>(s, a);
    s.note(|| format!("{} {} z={}", C::CNAME, sh::<C>(&a), show(ap.z)));
    if a.is_some() {
        s.nontrivial();
    }
    let dbl = ref_add::<C>(a, a);
    if dbl.is_none() && a.is_some() {
        s.class("order two");
    }
    aff_is("affine double", aa.double(), &dbl)?;
    proj_is("projective double", ap.double(), &dbl)?;
    aff_is("-affine", -aa, &ref_neg::<C>(a))?;
    proj_is("-projective", -ap, &ref_neg::<C>(a))?;
    proj_is("projective.neg()", ap.neg(), &ref_neg::<C>(a))?;
    aff_is("to_affine", ap.to_affine(), &a)?;
    proj_is("to_projective", aa.to_projective(), &a)?;
    ensure!(aa.is_valid() && ap.is_valid(), "{} {} called invalid", C::CNAME, sh::<C>(&a));
    if let Some((x, y)) = a {
        aff_is::<C>("AffinePoint::nonzero", AffinePoint::nonzero(x, y), &a)?;
        proj_is::<C>("ProjectivePoint::nonzero", ProjectivePoint::nonzero(ap.x, ap.y, ap.z), &a)?;
    }
    proj_is("a - a", ap + (-ap), &None)?;
    ensure!(ap + (-ap) == ProjectivePoint::ZERO, "{} a - a is not the identity", C::CNAME);
    aff_is::<C>("ZERO", AffinePoint::ZERO, &None)?;
    Ok(())
}

fn validity<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let q = match s.upto(3) {
        0 => (elem::<C::BaseField>(s), elem::<C::BaseField>(s)),
        1 => match any_point::<C>(s) {
            Some((x, y)) => (x, y + elem::<C::BaseField>(s)),
            None => (C::BaseField::ZERO, C::BaseField::ZERO),
        },
        _ => match any_point::<C>(s) {
            Some((x, y)) => (x + elem::<C::BaseField>(s), y),
            None => (C::BaseField::ZERO, C::BaseField::ZERO),
        },
    };
    let on = ref_on_curve::<C>(&Some(q));
    s.class(if on { "on curve" } else { "off curve" });
    s.note(|| format!("{} {}", C::CNAME, sh::<C>(&Some(q))));
    if !on {
        s.nontrivial();
    }
    ensure_eq!(AffinePoint::<C> { x: q.0, y: q.1, zero: false }.is_valid(), on, "{} affine validity of {}", C::CNAME, sh::<C>(&Some(q)));
    let z = nonzero::<C::BaseField>(s);
    let pp = ProjectivePoint::<C> { x: q.0 * z, y: q.1 * z, z, zero: false };
    ensure_eq!(pp.is_valid(), on, "{} projective validity of {} scaled by {}", C::CNAME, sh::<C>(&Some(q)), show(z));
    let flat = ProjectivePoint::<C> { x: q.0, y: q.1, z: C::BaseField::ZERO, zero: false };
    ensure!(!flat.is_valid(), "{} a point with z = 0 not flagged as identity is called valid", C::CNAME);
    Ok(())
}

fn batches<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let n = s.tail(0, 20, 400, 50);
    let qs: Vec<Pt<C>> = (0..n).map(|_| any_point::<C>(s)).collect();
    let rs: Vec<Pt<C>> = (0..n).map(|i| second::<C>(s, &qs[i])).collect();
    let ps: Vec<ProjectivePoint<C>> = qs.iter().map(|&q| proj::<C>(s, q)).collect();
    let ts: Vec<ProjectivePoint<C>> = rs.iter().map(|&q| proj::<C>(s, q)).collect();
    s.note(|| format!("{} {:?}", C::CNAME, qs.iter().map(|q| sh::<C>(q)).collect::<Vec<_>>()));
    if n > 1 {
        s.nontrivial();
    }
    let affs = ProjectivePoint::batch_to_affine(&ps);
    ensure_eq!(affs.len(), n, "batch_to_affine length");
    let back = AffinePoint::batch_to_projective(&affs);
    ensure_eq!(back.len(), n, "batch_to_projective length");
    let sums = ProjectivePoint::add_slices(&ps, &ts);
    ensure_eq!(sums.len(), n, "add_slices length");
    for i in 0..n {
        aff_is("batch_to_affine", affs[i], &qs[i])?;
        proj_is("batch_to_projective", back[i], &qs[i])?;
        proj_is("add_slices", sums[i], &ref_add::<C>(qs[i], rs[i]))?;
    }
    Ok(())
}

/// A history of additions, doublings, negations and conversions over registers in mixed
/// representations.
fn histories<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let mut m: Vec<Pt<C>> = (0..3).map(|_| any_point::<C>(s)).collect();
    let mut r: Vec<ProjectivePoint<C>> = m.iter().map(|&q| proj::<C>(s, q)).collect();
    let n = s.tail(1, 24, 200, 50);
    s.note(|| format!("{} {:?}", C::CNAME, m.iter().map(|q| sh::<C>(q)).collect::<Vec<_>>()));
    if n > 3 {
        s.nontrivial();
    }
    for _ in 0..n {
        let (a, b, d) = (s.upto(3), s.upto(3), s.upto(3));
        let op = s.upto(7);
        s.note(|| format!("op{} {} {} -> {}", op, a, b, d));
        let (v, x) = match op {
            0 => (ref_add::<C>(m[a], m[b]), r[a] + r[b]),
            1 => (ref_add::<C>(m[a], m[b]), r[a] + r[b].to_affine()),
            2 => (ref_add::<C>(m[a], m[b]), r[a].to_affine() + r[b].to_affine()),
            3 => (ref_add::<C>(m[a], m[a]), r[a].double()),
            4 => (ref_add::<C>(m[a], m[a]), r[a].to_affine().double().to_projective()),
            5 => (ref_neg::<C>(m[a]), -r[a]),
            _ => (ref_add::<C>(m[a], ref_neg::<C>(m[b])), r[a] + (-r[b])),
        };
        proj_is("history step", x, &v)?;
        m[d] = v;
        r[d] = x;
    }
    Ok(())
}

fn constants<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    s.nontrivial();
    s.note(|| C::CNAME.to_string());
    let g = pt(&C::GENERATOR_AFFINE);
    ensure!(g.is_some() && ref_on_curve::<C>(&g), "{} generator not on the curve", C::CNAME);
    proj_is("GENERATOR_PROJECTIVE", C::GENERATOR_PROJECTIVE, &g)?;
    // the scalar field's order is the order of the generator
    let r = p::<C::ScalarField>();
    ensure!(ref_mul::<C>(g, r).is_none(), "{} [order] generator is not the identity", C::CNAME);
    ensure!(r.is_odd() && !r.is_one(), "order");
    // published parameters: y^2 = x^3 + b
    let b: u64 = match C::CNAME {
        "Tweedledee" => 5,
        "Tweedledum" => 7,
        "Bls12377" => 1,
        _ => 5,
    };
    ensure_eq!(big(C::A), BigUint::from(0u32), "{} A", C::CNAME);
    ensure_eq!(big(C::B), BigUint::from(b), "{} B", C::CNAME);
    ensure!(C::is_safe_curve(), "{} singular", C::CNAME);
    Ok(())
}

fn main() {
    Suite::new("C01", "a case is a curve and points: the identity, small and random multiples of the generator, points with boundary abscissae, points of order two and three and others outside the prime-order group (Bls12377), pairs that are equal, opposite, doubles or share an ordinate, projective forms with arbitrary scale; non-trivial = no identity among the operands (lists: more than one point, histories: more than three steps, validity: off the curve)")
        .assume("chord-and-tangent addition with one field inversion, over the field arithmetic checked by F01, is the oracle")
        .assume("the identity is given in the forms the library itself produces (ZERO and its conversions)")
        .law("pairs", 150_000, 5_000_000, |s| each_curve!(s, pairs))
        .law("single points", 100_000, 4_000_000, |s| each_curve!(s, singles))
        .law("validity", 60_000, 2_000_000, |s| each_curve!(s, validity))
        .law("batches", 8_000, 300_000, |s| each_curve!(s, batches))
        .law("histories", 15_000, 600_000, |s| each_curve!(s, histories))
        .law("constants", 50, 50, |s| each_curve!(s, constants))
        .run()
}
