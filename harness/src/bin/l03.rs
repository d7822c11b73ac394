//! L03: multi-column tables reduce lookups row by row.
use plonky::*;
use plookup::table::Table;
use vh::gen::*;
use vh::lookup::*;
use vh::refs::*;
use vh::*;

/// A deterministic function of the arguments, one of several kinds.
fn apply<F: FieldRef>(kind: usize, salt: u64, a: &[F]) -> F {
    match kind {
        0 => a.iter().fold(F::from_canonical_u64(salt % 7), |x, &y| x + y),
        1 => a.iter().fold(F::ONE, |x, &y| x * y),
        2 => a[a.len() - 1],
        3 => F::from_canonical_u64(salt),
        4 => a.iter().fold(F::ZERO, |x, &y| x * F::from_canonical_u64(salt | 1) + y * y + F::ONE),
        _ => {
            let mut h = salt;
            for x in a {
                for w in big(*x).to_u64_digits() {
                    h = splitmix(h ^ w);
                }
            }
            F::from_canonical_u64(h % 9)
        }
    }
}
macro_rules! functions {
    ($s:ident, $F:ty, $N:expr, $M:expr) => {{
        let s: &mut Src = $s;
        let (kind, salt) = (s.upto(6), s.below(1000));
        let f = move |a: [$F; $M]| apply::<$F>(kind, salt, &a);
        if s.bool() {
            s.class("listed domain");
            let n = s.tail(0, 20, 600, 100);
            let domain: Vec<[$F; $M]> = (0..n)
                .map(|_| {
                    let mut a = [<$F>::ZERO; $M];
                    for x in a.iter_mut() {
                        *x = elem(s);
                    }
                    a
                })
                .collect();
            s.note(|| format!("{} rows, function {}", n, kind));
            if n > 1 {
                s.nontrivial();
            }
            let t = Table::<$F, { $N }>::from_function(&f, &domain);
            ensure_eq!(t.0.len(), n, "rows of the table of a function on {} arguments", n);
            for (i, (row, a)) in t.0.iter().zip(&domain).enumerate() {
                ensure!(row[..$M] == a[..] && row[$M] == f(*a), "row {} is {}, expected {} and {}", i, shows(row), shows(a), show(f(*a)));
            }
        } else {
            s.class("cartesian domain");
            let n = s.size(0, 6);
            let d: Vec<$F> = many(s, n);
            s.note(|| format!("domain {}, function {}", shows(&d), kind));
            if n > 1 {
                s.nontrivial();
            }
            let t = Table::<$F, { $N }>::from_function_cartesian(&f, &d);
            let count = (0..$M).fold(1, |a, _| a * n);
            ensure_eq!(t.0.len(), count, "rows of the table on all {}-tuples from {} values", $M, n);
            for i in 0..count {
                // the last argument varies fastest
                let mut a = [<$F>::ZERO; $M];
                let mut k = i;
                for j in (0..$M).rev() {
                    a[j] = d[k % n];
                    k /= n;
                }
                let row = &t.0[i];
                ensure!(row[..$M] == a[..] && row[$M] == f(a), "row {} is {}, expected {} and {}", i, shows(row), shows(&a), show(f(a)));
            }
        }
        Ok(())
    }};
}
fn functions<F: FieldRef>(s: &mut Src) -> Res {
    match s.upto(3) {
        0 => functions!(s, F, 2, 1),
        1 => functions!(s, F, 3, 2),
        _ => functions!(s, F, 4, 3),
    }
}
/// Rows whose entries often agree in some columns.
fn rows<C>(s: &mut Src, width: usize, max: usize) -> Vec<Vec<C::ScalarField>>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = extent(s, max);
    let small = s.bool();
    (0..n).map(|_| (0..width).map(|_| if small { C::ScalarField::from_canonical_u64(s.below(4)) } else { value::<C>(s) }).collect()).collect()
}
macro_rules! array {
    ($F:ty, $N:expr, $v:expr) => {{
        let v: &[$F] = &$v;
        let mut a = [<$F>::ZERO; $N];
        a.copy_from_slice(v);
        a
    }};
}
macro_rules! table {
    ($F:ty, $N:expr, $v:expr) => {
        Table::<$F, { $N }>($v.iter().map(|r| array!($F, $N, r[..])).collect())
    };
}
/// The reduction is the same linear combination of every row, with a factor drawn from the table.
macro_rules! reduction {
    ($s:ident, $C:ty, $N:tt) => {{
        let s: &mut Src = $s;
        type F<C> = <C as Curve>::ScalarField;
        let one = <F<$C> as Field>::ONE;
        let mut r = rows::<$C>(s, $N, 12);
        // rows that expose the factor
        let mut unit = vec![<F<$C> as Field>::ZERO; $N];
        unit[$N - 2] = one;
        r.push(unit);
        let i = s.upto(r.len());
        let last = r.len() - 1;
        r.swap(i, last);
        s.note(|| format!("{:?}", r.iter().map(|x| shows(x)).collect::<Vec<_>>()));
        s.nontrivial();
        let t = table!(F<$C>, $N, r);
        let v = t.to_vec();
        ensure_eq!(v.len(), r.len(), "reduced rows");
        let a = v[i];
        for (k, row) in r.iter().enumerate() {
            let want = row.iter().fold(<F<$C> as Field>::ZERO, |x, &y| x * a + y);
            ensure!(v[k] == want, "row {} reduced to {}, others with the factor {}", k, show(v[k]), show(a));
        }
        ensure!(big(a).bits() > 100, "factor {} is no challenge", show(a));
        ensure!(t.to_vec() == v, "reduced differently the second time");
        // any change of the table draws another factor
        let (j, c) = (s.upto(r.len()), s.upto($N));
        let mut q = r.clone();
        q[j][c] = q[j][c] + one;
        q.push(r[i].clone());
        let b = *table!(F<$C>, $N, q).to_vec().last().unwrap();
        let mut q = r.clone();
        q.push(r[i].clone());
        let b2 = *table!(F<$C>, $N, q).to_vec().last().unwrap();
        ensure!(b != a && b2 != a && b != b2, "the factor does not depend on the whole table");
        Ok(())
    }};
}
fn reduction<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    match s.upto(3) {
        0 => reduction!(s, C, 2),
        1 => reduction!(s, C, 3),
        _ => reduction!(s, C, 5),
    }
}
macro_rules! prove {
    ($s:ident, $C:ty, $N:tt) => {{
        let s: &mut Src = $s;
        type F<C> = <C as Curve>::ScalarField;
        let r = rows::<$C>(s, $N, 20);
        let m = extent(s, 20);
        let mut w: Vec<Vec<F<$C>>> = (0..m).map(|_| s.pick(&r).clone()).collect();
        let bad = s.chance(1, 2);
        if bad {
            let k = s.upto(m);
            let (a, b) = (s.pick(&r).clone(), s.pick(&r).clone());
            let how = match s.upto(6) {
                0 => {
                    // columns of different rows
                    let c = if $N > 1 { s.range(1, $N - 1) } else { 0 };
                    w[k] = a[..c].iter().chain(&b[c..]).cloned().collect();
                    "columns of different rows"
                }
                1 => {
                    w[k].reverse();
                    "reversed row"
                }
                2 => {
                    w[k].rotate_left(1);
                    "rotated row"
                }
                3 => {
                    let c = s.upto($N);
                    w[k][c] = w[k][c] + <F<$C> as Field>::ONE;
                    "entry incremented"
                }
                4 => {
                    // the sums agree
                    let (c, d) = (s.upto($N), s.upto($N));
                    let x = elem::<F<$C>>(s);
                    w[k][c] = w[k][c] + x;
                    w[k][d] = w[k][d] - x;
                    "moved between columns"
                }
                _ => {
                    w[k] = vec![<F<$C> as Field>::ZERO; $N];
                    "zero row"
                }
            };
            s.class(how);
        }
        let truly = w.iter().all(|x| r.contains(x));
        if truly {
            s.class("all in the table");
        }
        if !truly || r.len() > 1 {
            s.nontrivial();
        }
        let columns = s.bool();
        s.class(if columns { "by columns" } else { "by rows" });
        s.note(|| format!("{:?} in {:?}", w.iter().map(|x| shows(x)).collect::<Vec<_>>(), r.iter().map(|x| shows(x)).collect::<Vec<_>>()));
        let t = table!(F<$C>, $N, r);
        let ws = table!(F<$C>, $N, w);
        let mut cols: Vec<Vec<F<$C>>> = vec![];
        for c in 0..$N {
            cols.push(w.iter().map(|x| x[c]).collect());
        }
        s.seed_code_rng();
        let made = catching(|| {
            if columns {
                // arrays of vectors have no default beyond small sizes
                let mut it = cols.into_iter();
                let mut next = || it.next().unwrap();
                t.prove_column::<$C>(&columns!($N, next))
            } else {
                t.prove_row::<$C>(&ws)
            }
        });
        let p = match made {
            Ok(Ok(p)) => p,
            x => {
                ensure!(!truly, "no proof of rows of the table: {:?}", x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())));
                s.class("refused");
                return Ok(());
            }
        };
        let answer = catching(|| t.verify(&p).is_ok());
        if truly {
            ensure!(answer == Ok(true), "lookup of rows of the table: {:?}", answer);
            // the proof is for this table only
            let mut q = r.clone();
            let (j, c) = (s.upto(q.len()), s.upto($N));
            q[j][c] = q[j][c] + <F<$C> as Field>::ONE;
            ensure!(catching(|| table!(F<$C>, $N, q).verify(&p).is_ok()) != Ok(true), "accepted for another table");
            // and about these rows: the same reduction of the same rows, as polynomials at zeta
            let n = p.n;
            let g = F::<$C>::primitive_root_of_unity((n + 1).trailing_zeros() as usize);
            let zeta = p.get_challenges().map_err(|e| e.to_string())?.zeta;
            let l = [lagrange(n + 1, g, zeta), lagrange(n + 1, g, zeta * g)];
            let tv = t.to_vec();
            let fv: Vec<F<$C>> = w.iter().map(|x| tv[r.iter().position(|y| y == x).unwrap()]).collect();
            let o = [p.openings.f.local, p.openings.f.right];
            let last = |pad, k: usize| (o[k] - dot(&fv, &l[k]) - sum(&l[k][fv.len()..n]) * pad) / l[k][n];
            ensure!(tv.iter().any(|&pad| last(pad, 0) == last(pad, 1)), "the proof is about other rows");
        } else {
            ensure!(answer != Ok(true), "lookup of a row outside the table accepted");
        }
        Ok(())
    }};
}
macro_rules! columns {
    (1, $n:ident) => {
        [$n()]
    };
    (2, $n:ident) => {
        [$n(), $n()]
    };
    (3, $n:ident) => {
        [$n(), $n(), $n()]
    };
    (4, $n:ident) => {
        [$n(), $n(), $n(), $n()]
    };
}
fn lookups<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    match s.upto(4) {
        0 => prove!(s, C, 2),
        1 => prove!(s, C, 3),
        2 => prove!(s, C, 1),
        _ => prove!(s, C, 4),
    }
}
/// The factor is known before the rows are chosen, so a row can be made to collide with one of the
/// table.
fn collision() -> Option<String> {
    type C = Tweedledee;
    type F = <C as Curve>::ScalarField;
    let f = |x: u64| F::from_canonical_u64(x);
    let t = Table::<F, 2>(vec![[f(1), f(0)], [f(2), f(3)], [f(4), f(5)]]);
    // the reduction of (1, 0) is the factor itself
    let a = t.to_vec()[0];
    let row = [f(3), f(3) - a];
    let p = t.prove_row::<C>(&Table(vec![row])).ok()?;
    t.verify(&p).ok().map(|_| format!("({}, {}) accepted in the table (1, 0), (2, 3), (4, 5)", show(row[0]), show(row[1])))
}
fn functions_l(s: &mut Src) -> Res {
    each_field!(s, functions)
}
fn reduction_l(s: &mut Src) -> Res {
    each_halo!(s, reduction)
}
fn lookups_l(s: &mut Src) -> Res {
    each_halo!(s, lookups)
}
fn main() {
    Suite::new("L03", "Functions of one to three arguments on listed and cartesian domains in six fields; the reduction of tables of width 2, 3, 5; lookups by rows and by columns in tables of width 2 to 4 with up to 20 rows sharing many entries, half of them with a row outside the table built from its entries. Non-trivial: more than one row, or a row outside the table.")
        .assume("the rows looked up are chosen independently of the table's challenge (see the known finding)")
        .probe("challenge-known", "the challenge reducing rows to values depends on the table only, so a row outside the table can be chosen to collide with one of its rows", collision)
        .law("tables of functions", 400, 20000, functions_l)
        .law("reduction", 200, 10000, reduction_l)
        .law("lookups", 160, 8000, lookups_l)
        .run();
}
