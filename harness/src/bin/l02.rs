//! L02: a lookup proof is never accepted for a value outside the table or once altered.
use plonky::*;
use plookup::plookup::prove;
use plookup::verifier::verify;
use vh::gen::*;
use vh::lookup::*;
use vh::refs::*;
use vh::*;

/// Accepted (true), rejected with an error (false), or a crash (Err).
macro_rules! answer {
    ($t:expr, $p:expr) => {
        catching(|| verify($t, $p)).map(|r| r.is_ok())
    };
}
macro_rules! honest {
    ($C:ty, $s:expr, $f:expr, $t:expr) => {{
        $s.seed_code_rng();
        match catching(|| prove::<$C>($f, $t)) {
            Ok(Ok(p)) => p,
            x => return Err(format!("no proof of a genuine lookup: {:?}", x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
        }
    }};
}
/// A value that is not in the table, close to it in one of many ways.
fn foreign<C>(s: &mut Src, t: &[C::ScalarField]) -> C::ScalarField
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let one = C::ScalarField::ONE;
    let mut x = one;
    for _ in 0..4 {
        let (a, b) = (*s.pick(t), *s.pick(t));
        x = match s.upto(8) {
            0 => C::ScalarField::ZERO,
            1 => a + one,
            2 => a - one,
            3 => -a,
            4 => a + b,
            5 => a * b,
            6 => C::ScalarField::from_canonical_u64(s.below(400)),
            _ => value::<C>(s),
        };
        if !t.contains(&x) {
            return x;
        }
    }
    while t.contains(&x) {
        x = x + one;
    }
    x
}
/// The prover given a value outside the table.
fn outside<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 20);
    let mut f = subset(s, &t, 20);
    for _ in 0..s.range(1, 2) {
        let y = foreign::<C>(s, &t);
        let i = s.upto(f.len());
        f[i] = y;
    }
    s.note(|| format!("{} in a table of {}", shows(&f), shows(&t)));
    s.nontrivial();
    s.seed_code_rng();
    match catching(|| prove::<C>(&f, &t)) {
        Ok(Ok(p)) => {
            s.class("proof made");
            ensure!(answer!(&t, &p) != Ok(true), "lookup of a value outside the table accepted");
        }
        Ok(Err(_)) => s.class("prover refused"),
        Err(_) => s.class("prover panicked"),
    }
    Ok(())
}
/// A proof judged for other tables.
fn tables<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 20);
    let f = subset(s, &t, 20);
    let p = honest!(C, s, &f, &t);
    for _ in 0..6 {
        let mut u = t.clone();
        let (i, j) = (s.upto(t.len()), s.upto(t.len()));
        match s.upto(8) {
            0 => u[i] = foreign::<C>(s, &t),
            1 => u.swap(i, j),
            2 => {
                u.remove(i);
            }
            3 => u.insert(i, foreign::<C>(s, &t)),
            4 => u.push(foreign::<C>(s, &t)),
            5 => u.push(C::ScalarField::ZERO),
            6 => u = table::<C>(s, 40),
            _ => {
                let x = foreign::<C>(s, &t);
                u.resize(p.n + 1 + s.upto(3), x);
            }
        }
        let full = |v: &[C::ScalarField]| {
            let mut v = v.to_vec();
            while v.len() < p.n + 1 {
                v.push(v[v.len() - 1]);
            }
            v
        };
        // tables that only repeat their last value differently are the same table
        if u.is_empty() || full(&u) == full(&t) {
            continue;
        }
        s.nontrivial();
        s.note(|| format!("{} of {} judged for {}", shows(&f), shows(&t), shows(&u)));
        match answer!(&u, &p) {
            Ok(false) => {}
            Ok(true) => return Err("accepted for another table".into()),
            Err(e) => return Err(format!("verifier crashed on another table: {}", e)),
        }
    }
    match answer!(&[], &p) {
        Ok(false) => {}
        x => return Err(format!("verification for an empty table: {:?}", x)),
    }
    Ok(())
}
fn other_point<C>(s: &mut Src, x: AffinePoint<C>, pool: &[AffinePoint<C>]) -> AffinePoint<C>
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    match s.upto(6) {
        0 => -x,
        1 => AffinePoint::ZERO,
        2 => aff::<C>(ref_add::<C>(pt(&x), pt(&C::GENERATOR_AFFINE))),
        3 => aff::<C>(ref_add::<C>(pt(&x), pt(&x))),
        4 => *s.pick(pool),
        _ => aff::<C>(point::<C>(s)),
    }
}
/// Alter one component; the lists keep their lengths.
fn alter<C>(s: &mut Src, p: &mut Parts<C>) -> String
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let points: Vec<AffinePoint<C>> = p.c.iter().chain(&p.l).chain(&p.r).cloned().collect();
    let scalars: Vec<C::ScalarField> = p.o.iter().flatten().cloned().collect();
    let mut other = |s: &mut Src, x: C::ScalarField| match s.upto(5) {
        0 => -x,
        1 => C::ScalarField::ZERO,
        2 => x + C::ScalarField::ONE,
        3 => *s.pick(&scalars),
        _ => elem(s),
    };
    match s.weighted(&[4, 4, 2, 2, 1, 2]) {
        0 => {
            let i = s.upto(6);
            p.c[i] = other_point(s, p.c[i], &points);
            format!("commitment {} altered", i)
        }
        1 => {
            let (i, j) = (s.upto(6), s.upto(2));
            p.o[i][j] = other(s, p.o[i][j]);
            format!("opening {},{} altered", i, j)
        }
        2 => {
            let i = s.upto(p.l.len());
            p.l[i] = other_point(s, p.l[i], &points);
            format!("L {} altered", i)
        }
        3 => {
            let i = s.upto(p.r.len());
            p.r[i] = other_point(s, p.r[i], &points);
            format!("R {} altered", i)
        }
        4 => {
            p.g = other_point(s, p.g, &points);
            "folded generator altered".into()
        }
        _ => match s.upto(3) {
            0 => {
                p.schnorr.r = other_point(s, p.schnorr.r, &points);
                "Schnorr commitment altered".into()
            }
            1 => {
                p.schnorr.z1 = other(s, p.schnorr.z1);
                "z1 altered".into()
            }
            _ => {
                p.schnorr.z2 = other(s, p.schnorr.z2);
                "z2 altered".into()
            }
        },
    }
}
fn equal<C: HaloCurve>(a: &Parts<C>, b: &Parts<C>) -> bool {
    a.c[..] == b.c[..]
        && a.o == b.o
        && a.l == b.l
        && a.r == b.r
        && a.g == b.g
        && a.schnorr.r == b.schnorr.r
        && a.schnorr.z1 == b.schnorr.z1
        && a.schnorr.z2 == b.schnorr.z2
        && a.n == b.n
}
fn altered<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 12);
    let f = subset(s, &t, 12);
    let mut p = honest!(C, s, &f, &t);
    let good = lookup_parts!(p);
    let q = honest!(C, s, &f, &t);
    let second = lookup_parts!(q);
    for _ in 0..10 {
        let mut x = good.clone();
        let what = if s.chance(1, 5) && second.l.len() == x.l.len() {
            // whole messages of another proof of the same lookup
            let mut what = "messages exchanged:".to_string();
            for k in 0..6 {
                if s.chance(1, 3) {
                    what += &format!(" {}", k);
                    match k {
                        0 => x.c = second.c,
                        1 => x.o = second.o,
                        2 => {
                            x.l = second.l.clone();
                            x.r = second.r.clone();
                        }
                        3 => x.g = second.g,
                        4 => x.schnorr = second.schnorr,
                        _ => x.c[s.upto(6)] = second.c[s.upto(6)],
                    }
                }
            }
            what
        } else {
            alter(s, &mut x)
        };
        if equal(&x, &good) || equal(&x, &second) {
            continue;
        }
        s.nontrivial();
        s.note(|| what.clone());
        lookup_put!(p, x);
        match answer!(&t, &p) {
            Ok(false) => {}
            Ok(true) => return Err(format!("accepted with {}", what)),
            Err(e) => return Err(format!("verifier crashed with {}: {}", what, e)),
        }
    }
    lookup_put!(p, good);
    ensure!(answer!(&t, &p) == Ok(true), "unaltered proof rejected");
    Ok(())
}
/// Lists of other lengths and other sizes.
fn malformed<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 12);
    let f = subset(s, &t, 12);
    let mut p = honest!(C, s, &f, &t);
    let good = lookup_parts!(p);
    for _ in 0..8 {
        let mut x = good.clone();
        let extra = *s.pick(&[good.g, good.c[0], AffinePoint::ZERO]);
        let what = match s.upto(8) {
            0 => {
                x.n = *s.pick(&[0, 1, x.n + 1, x.n - 1, 2 * x.n, 2 * x.n + 1, x.n / 2, 4 * x.n + 3]);
                format!("size {}", x.n)
            }
            1 => {
                // nothing such a size could be for
                x.n = *s.pick(&[usize::max_value(), usize::max_value() / 2, (1 << 40) - 1, (1 << 62) - 1, usize::max_value() - 1]);
                format!("size {}", x.n)
            }
            2 => {
                x.l.pop();
                "L shorter".into()
            }
            3 => {
                x.r.pop();
                "R shorter".into()
            }
            4 => {
                x.l.push(extra);
                "L longer".into()
            }
            5 => {
                x.r.push(extra);
                "R longer".into()
            }
            6 => {
                x.l.push(extra);
                x.r.push(extra);
                "L and R longer".into()
            }
            _ => {
                let k = s.upto(x.l.len());
                x.l.truncate(k);
                x.r.truncate(k);
                if s.bool() {
                    x.n = (1usize << k).max(2) / 2 - 1;
                }
                format!("L and R of {}, size {}", k, x.n)
            }
        };
        if equal(&x, &good) {
            continue;
        }
        s.nontrivial();
        s.note(|| what.clone());
        lookup_put!(p, x);
        match answer!(&t, &p) {
            Ok(false) => {}
            Ok(true) => return Err(format!("accepted with {}", what)),
            Err(e) => return Err(format!("verifier crashed with {}: {}", what, e)),
        }
    }
    Ok(())
}
/// Every challenge depends on everything sent before it.
fn transcript<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let t = table::<C>(s, 8);
    let f = subset(s, &t, 8);
    let mut p = honest!(C, s, &f, &t);
    let good = lookup_parts!(p);
    let a = p.get_challenges().map_err(|e| e.to_string())?;
    for _ in 0..8 {
        let mut x = good.clone();
        let g = aff::<C>(point::<C>(s));
        let rounds = x.l.len();
        // the component altered and the first challenge that must notice
        let (what, first) = match s.upto(6) {
            0 => {
                let i = s.upto(6);
                x.c[i] = g;
                (format!("commitment {}", i), [0, 0, 0, 0, 2, 3][i])
            }
            1 | 2 => {
                let (i, j) = (s.upto(6), s.upto(2));
                x.o[i][j] = value::<C>(s);
                (format!("opening {},{}", i, j), 4)
            }
            3 => {
                let i = s.upto(rounds);
                x.l[i] = g;
                (format!("L {}", i), 7 + i)
            }
            4 => {
                let i = s.upto(rounds);
                x.r[i] = g;
                (format!("R {}", i), 7 + i)
            }
            _ => {
                x.schnorr.r = g;
                ("Schnorr commitment".into(), 7 + rounds)
            }
        };
        if equal(&x, &good) {
            continue;
        }
        s.note(|| what.clone());
        lookup_put!(p, x);
        let b = match catching(|| p.get_challenges()) {
            Ok(Ok(b)) => b,
            Ok(Err(_)) => {
                s.class("no transcript");
                continue;
            }
            Err(e) => return Err(format!("crash with another {}: {}", what, e)),
        };
        s.nontrivial();
        let list = |a: &[C::ScalarField], us: &[C::ScalarField], last: C::ScalarField| -> Vec<C::ScalarField> { a.iter().chain(us).cloned().chain(Some(last)).collect() };
        let (a, b) = (
            list(&[a.beta, a.gamma, a.alpha, a.zeta, a.v, a.u, a.u_scaling], &a.halo_us, a.schnorr_challenge),
            list(&[b.beta, b.gamma, b.alpha, b.zeta, b.v, b.u, b.u_scaling], &b.halo_us, b.schnorr_challenge),
        );
        ensure!(a.len() == b.len(), "{} challenges instead of {}", b.len(), a.len());
        for i in 0..a.len() {
            ensure!((a[i] != b[i]) == (i >= first), "challenge {} of {} {} with another {}", i, a.len(), if a[i] == b[i] { "is the same" } else { "already differs" }, what);
        }
    }
    Ok(())
}
/// A prover of false statements that follows the protocol otherwise.
fn forged<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = (1usize << s.range(1, 4)) - 1;
    let size = s.range(1, n + 1);
    let mut t: Vec<C::ScalarField> = table::<C>(s, size);
    while t.len() < n + 1 {
        t.push(t[t.len() - 1]);
    }
    let y = foreign::<C>(s, &t);
    let mut f: Vec<C::ScalarField> = (0..n).map(|_| *s.pick(&t)).collect();
    let (h1, h2);
    let merged = |f: &[C::ScalarField], t: &[C::ScalarField]| {
        let mut v = vec![];
        let mut left = f.to_vec();
        for x in t {
            v.push(*x);
            let same = left.iter().filter(|z| *z == x).count();
            v.extend(vec![*x; same]);
            left.retain(|z| z != x);
        }
        v.extend(left);
        v
    };
    let how = match s.upto(7) {
        0 => {
            // lists that fit the running product, but not each other
            f = vec![y; n];
            if s.bool() {
                h1 = vec![y; n + 1];
                h2 = t.clone();
            } else {
                h1 = t.clone();
                h2 = vec![y; n + 1];
            }
            "unconnected halves"
        }
        1 => {
            // the table extended by the value
            let i = s.upto(n);
            f[i] = y;
            let mut u = t.clone();
            u[n] = y;
            let v = merged(&f, &u);
            if v.len() < 2 * n + 1 {
                s.discarded = true;
                return Ok(());
            }
            h1 = v[..n + 1].to_vec();
            h2 = v[n..2 * n + 1].to_vec();
            "sorted by another table"
        }
        2 => {
            let i = s.upto(n);
            f[i] = y;
            let v: Vec<_> = f.iter().chain(&t).cloned().collect();
            h1 = v[..n + 1].to_vec();
            h2 = v[n..].to_vec();
            "not sorted"
        }
        3 => {
            // the value left out of the sorted list
            let mut g = f.clone();
            let i = s.upto(n);
            f[i] = y;
            g[i] = t[s.upto(n + 1)];
            let v = merged(&g, &t);
            h1 = v[..n + 1].to_vec();
            h2 = v[n..].to_vec();
            "value left out"
        }
        4 => {
            f = vec![y; n];
            h1 = vec![C::ScalarField::ZERO; n + 1];
            h2 = h1.clone();
            "nothing"
        }
        _ => {
            for _ in 0..s.range(1, n) {
                let i = s.upto(n);
                f[i] = y;
            }
            let v = merged(&f, &t);
            h1 = v[..n + 1].to_vec();
            h2 = v[n..].to_vec();
            "foreign value sorted in"
        }
    };
    f.push(C::ScalarField::ZERO);
    let d = nonzero::<C::ScalarField>(s);
    let k = s.upto(n + 1);
    let (zname, z): (&str, Box<dyn Fn(Vec<C::ScalarField>) -> Vec<C::ScalarField>>) = match s.upto(7) {
        0 | 1 => ("running product", Box::new(|z| z)),
        2 => (
            "running product forced to end in one",
            Box::new(|mut z| {
                let n = z.len();
                z[n - 1] = C::ScalarField::ONE;
                z
            }),
        ),
        3 => (
            "running product scaled to end in one",
            Box::new(|z| {
                let k = z[z.len() - 1].multiplicative_inverse().unwrap_or(C::ScalarField::ONE);
                z.into_iter().map(|x| x * k).collect()
            }),
        ),
        4 => ("constant one", Box::new(|z| vec![C::ScalarField::ONE; z.len()])),
        5 => ("zero", Box::new(|z| vec![C::ScalarField::ZERO; z.len()])),
        _ => (
            "another value somewhere",
            Box::new(move |mut z| {
                z[k] = d;
                z
            }),
        ),
    };
    let (which, to) = ((s.upto(5), s.upto(2)), elem::<C::ScalarField>(s));
    let mut o: Option<&dyn Fn(&mut [[C::ScalarField; 2]; 6])> = None;
    let change = move |o: &mut [[C::ScalarField; 2]; 6]| o[which.0][which.1] = to;
    if s.chance(1, 6) {
        o = Some(&change);
    }
    let (quotient, fold) = (s.bool(), s.chance(1, 4));
    s.class(how);
    s.class(zname);
    if quotient {
        s.class(if fold { "quotient opening and folded generator fixed" } else { "quotient opening fixed" });
    }
    s.note(|| format!("{} looked up in {}: {}, {}, quotient fixed {}, folded {}", shows(&f[..n]), shows(&t), how, zname, quotient, fold));
    s.nontrivial();
    let claim = Claim { f, t: t.clone(), h1, h2 };
    s.seed_code_rng();
    let parts = match catching(|| forge::<C>(&claim, &Trick { z: Some(&*z), o, quotient, fold, blinding: s.bool() })) {
        Ok(Ok(p)) => p,
        _ => {
            s.class("no proof made");
            return Ok(());
        }
    };
    let x = vec![t[0]];
    let mut p = honest!(C, s, &x, &x);
    lookup_put!(p, parts);
    ensure!(answer!(&t, &p) != Ok(true), "false lookup accepted ({}, {}, quotient fixed {}, folded {})", how, zname, quotient, fold);
    Ok(())
}
/// The reference prover makes accepted proofs of true statements; otherwise its failures prove nothing.
fn reference<C>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let n = (1usize << s.range(1, 4)) - 1;
    let size = s.range(1, n + 1);
    let mut t: Vec<C::ScalarField> = table::<C>(s, size);
    while t.len() < n + 1 {
        t.push(t[t.len() - 1]);
    }
    let mut f: Vec<C::ScalarField> = (0..n).map(|_| *s.pick(&t)).collect();
    s.note(|| format!("{} looked up in {}", shows(&f), shows(&t)));
    s.nontrivial();
    let mut v = vec![];
    let mut left = f.clone();
    for x in &t {
        v.push(*x);
        let same = left.iter().filter(|z| *z == x).count();
        v.extend(vec![*x; same]);
        left.retain(|z| z != x);
    }
    f.push(value::<C>(s));
    let claim = Claim { f, t: t.clone(), h1: v[..n + 1].to_vec(), h2: v[n..].to_vec() };
    s.seed_code_rng();
    let quotient = s.bool();
    let parts = forge::<C>(&claim, &Trick { z: None, o: None, quotient, fold: s.bool(), blinding: s.bool() })?;
    let x = vec![t[0]];
    let mut p = honest!(C, s, &x, &x);
    lookup_put!(p, parts);
    ensure!(answer!(&t, &p) == Ok(true), "true lookup by the reference prover: {:?}", catching(|| verify(&t, &p).map_err(|e| e.to_string())));
    Ok(())
}
fn outside_l(s: &mut Src) -> Res {
    each_halo!(s, outside)
}
fn tables_l(s: &mut Src) -> Res {
    each_halo!(s, tables)
}
fn altered_l(s: &mut Src) -> Res {
    each_halo!(s, altered)
}
fn malformed_l(s: &mut Src) -> Res {
    each_halo!(s, malformed)
}
fn transcript_l(s: &mut Src) -> Res {
    each_halo!(s, transcript)
}
fn forged_l(s: &mut Src) -> Res {
    each_halo!(s, forged)
}
fn reference_l(s: &mut Src) -> Res {
    each_halo!(s, reference)
}
fn main() {
    Suite::new("L02", "Lists with values outside the table (close to it in many ways), given to the prover and to a reference prover with false halves, accumulators, openings and folded generators; proofs judged for other tables, after alteration of any component, exchanged between proofs, and with other sizes and lengths; dependence of every challenge on everything before it. Four curves. Non-trivial: the statement is false or something really differs.")
        .assume("tables that differ only in how often their last value is repeated are the same table once padded")
        .law("values outside the table", 150, 6000, outside_l)
        .law("other tables", 80, 3000, tables_l)
        .law("altered proofs", 80, 4000, altered_l)
        .law("malformed proofs", 80, 4000, malformed_l)
        .law("transcript", 80, 3000, transcript_l)
        .law("reference prover on true lookups", 40, 1000, reference_l)
        .law("forged proofs", 240, 12000, forged_l)
        .run();
}
