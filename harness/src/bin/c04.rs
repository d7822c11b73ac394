//! C04: batch summation of affine points equals adding them one by one.
use plonky::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn list<C: CurveRef>(s: &mut Src, n: usize) -> Vec<Pt<C>>
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let base = any_point::<C>(s);
    let mode = s.upto(4);
    let mut v: Vec<Pt<C>> = Vec::with_capacity(n);
    for i in 0..n {
        let q = match mode {
            0 => point::<C>(s),
            1 => any_point::<C>(s),
            // neighbours equal, opposite or unrelated; sums of neighbours coincide again one level up
            2 => match s.upto(6) {
                5 => {
                    let q = same_y::<C>(v.last().copied().unwrap_or(base));
                    if s.bool() {
                        q
                    } else {
                        ref_neg::<C>(q)
                    }
                }
                0 => base,
                1 => ref_neg::<C>(base),
                2 => v.last().copied().unwrap_or(base),
                3 => ref_neg::<C>(v.last().copied().unwrap_or(base)),
                _ => None,
            },
            _ => C::pool()[(i + s.upto(3)) % POOL_SMALL].1,
        };
        v.push(q);
    }
    v
}
fn total<C: CurveRef>(v: &[Pt<C>]) -> Pt<C> {
    v.iter().fold(None, |a, q| ref_add::<C>(a, *q))
}
fn is<C: CurveRef>(what: &str, n: usize, got: ProjectivePoint<C>, want: &Pt<C>) -> Res {
    let g = pt_proj(&got).map_err(|e| format!("{} {} of {} points: {}", C::CNAME, what, n, e))?;
    ensure!(g == *want, "{} {} of {} points is wrong", C::CNAME, what, n);
    Ok(())
}
fn sh<C: CurveRef>(v: &[Pt<C>]) -> Vec<String> {
    v.iter().map(|q| q.map(|(x, y)| format!("({},{})", show(x), show(y))).unwrap_or("O".into())).collect()
}

fn single<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let n = match s.upto(8) {
        // around the point where another algorithm is chosen
        0 => s.range(134, 160),
        1 => s.range(270, 300),
        _ => s.tail(0, 40, 1200, 40),
    };
    let v = list::<C>(s, n);
    let want = total::<C>(&v);
    let a: Vec<AffinePoint<C>> = v.iter().map(|&q| aff::<C>(q)).collect();
    s.note(|| format!("{} {:?}", C::CNAME, sh::<C>(&v)));
    if n > 2 {
        s.nontrivial();
    }
    is("affine_summation_best", n, affine_summation_best(a.clone()), &want)?;
    is("affine_summation_pairwise", n, affine_summation_pairwise(a.clone()), &want)?;
    is("affine_summation_batch_inversion", n, affine_summation_batch_inversion(a.clone()), &want)?;
    is("Sum<AffinePoint>", n, a.iter().copied().sum::<ProjectivePoint<C>>(), &want)?;
    let ps: Vec<ProjectivePoint<C>> = v.iter().map(|&q| proj::<C>(s, q)).collect();
    is("Sum<ProjectivePoint>", n, ps.into_iter().sum::<ProjectivePoint<C>>(), &want)?;
    Ok(())
}

fn multi<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let many = s.chance(1, 5);
    let m = if many { s.range(6, 12) } else { s.size(0, 12) };
    let cap = if many { 60 } else { 12 };
    let vs: Vec<Vec<Pt<C>>> = (0..m)
        .map(|_| {
            let n = if many { s.range(12, cap) } else { s.size(0, cap) };
            list::<C>(s, n)
        })
        .collect();
    let a: Vec<Vec<AffinePoint<C>>> = vs.iter().map(|v| v.iter().map(|&q| aff::<C>(q)).collect()).collect();
    s.note(|| format!("{} {:?}", C::CNAME, vs.iter().map(|v| sh::<C>(v)).collect::<Vec<_>>()));
    let pairs: usize = vs.iter().map(|v| v.len() / 2).sum();
    s.class(if pairs >= 70 { "many pairs" } else { "few pairs" });
    if m > 1 && pairs > 1 {
        s.nontrivial();
    }
    let fs: [(&str, fn(Vec<Vec<AffinePoint<C>>>) -> Vec<ProjectivePoint<C>>); 3] = [
        ("affine_multisummation_best", affine_multisummation_best::<C>),
        ("affine_multisummation_pairwise", affine_multisummation_pairwise::<C>),
        ("affine_multisummation_batch_inversion", affine_multisummation_batch_inversion::<C>),
    ];
    for (name, f) in fs.iter() {
        let got = f(a.clone());
        ensure_eq!(got.len(), m, "{} {} number of sums", C::CNAME, name);
        for i in 0..m {
            is(name, vs[i].len(), got[i], &total::<C>(&vs[i]))?;
        }
    }
    Ok(())
}

fn main() {
    Suite::new("C04", "a case is a curve and one list (up to 300 points, also around the algorithm switch at 140) or up to 12 lists of points: random, equal, opposite or same-ordinate neighbours at every level, identities, points outside the prime-order group; non-trivial = more than two points (several lists: at least two pairs in all)")
        .assume("left-to-right addition in the reference model is the oracle")
        .law("one list", 12_000, 400_000, |s| each_curve!(s, single))
        .law("several lists", 8_000, 300_000, |s| each_curve!(s, multi))
        .run()
}
