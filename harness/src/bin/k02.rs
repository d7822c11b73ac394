//! K02: boolean, equality, selection and assertion gadgets.
use num::BigUint;
use plonky::*;
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Assertions over the steps of a program.
#[derive(Clone, Debug)]
enum Assert {
    Zero(usize),
    One(usize),
    Nonzero(usize),
    Binary(usize),
    Equal(usize, usize),
    Conditional(usize, usize, usize),
}
use Assert::*;
fn holds<F: Field>(a: &Assert, v: &[F]) -> bool {
    match *a {
        Zero(x) => v[x] == F::ZERO,
        One(x) => v[x] == F::ONE,
        Nonzero(x) => v[x] != F::ZERO,
        Binary(x) => v[x] == F::ZERO || v[x] == F::ONE,
        Equal(x, y) => v[x] == v[y],
        Conditional(c, x, y) => v[c] == F::ZERO || v[x] == v[y],
    }
}
fn impose<C: HaloCurve>(b: &mut CircuitBuilder<C>, t: &[Target<C::ScalarField>], a: &Assert) {
    match *a {
        Zero(x) => b.assert_zero(t[x]),
        One(x) => b.assert_one(t[x]),
        Nonzero(x) => b.assert_nonzero(t[x]),
        Binary(x) => b.assert_binary(t[x]),
        Equal(x, y) => b.copy(t[x], t[y]),
        Conditional(c, x, y) => b.conditional_copy(t[c], t[x], t[y]),
    }
}
fn some_assert<F: Field>(s: &mut Src, v: &[F]) -> Assert {
    let n = v.len();
    let (x, y, c) = (s.upto(n), s.upto(n), s.upto(n));
    match s.upto(6) {
        0 => Zero(x),
        1 => One(x),
        2 => Nonzero(x),
        3 => Binary(x),
        4 => Equal(x, y),
        _ => Conditional(c, x, y),
    }
}

fn logic_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let shape = Shape { steps: s.size(1, 24), publics: s.size(0, 6), virtuals: s.size(1, 6), logic: true, max_exp: 64 };
    let (ops, pis, vts) = program::<C::ScalarField>(s, shape);
    s.note(|| format!("{:?} on public {} virtual {}", ops, shows(&pis), shows(&vts)));
    if ops.iter().filter(|o| is_bit(o)).count() >= 2 {
        s.nontrivial();
    }
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit(&mut b, &ops);
    let c = b.build();
    for round in 0..4 {
        let (pis, vts): (Vec<_>, Vec<_>) = match round {
            0 => (pis.clone(), vts.clone()),
            1 => ((0..pis.len()).map(|_| C::ScalarField::from_canonical_u64(s.below(2))).collect(), (0..vts.len()).map(|_| C::ScalarField::from_canonical_u64(s.below(2))).collect()),
            _ => ((0..pis.len()).map(|_| elem(s)).collect(), (0..vts.len()).map(|_| elem(s)).collect()),
        };
        let want = match run(&ops, &pis, &vts) {
            Some(v) => v,
            None => continue,
        };
        let w = c.generate_partial_witness(assign(&ops, &t, &pis, &vts));
        for (i, op) in ops.iter().enumerate() {
            ensure!(w.contains_target(t[i]), "step {} ({:?}) gets no value", i, op);
            let y = w.get_target(t[i]);
            ensure!(y == want[i], "step {} ({:?}) is {} in the witness, {} by definition (public {} virtual {})", i, op, show(y), show(want[i]), shows(&pis), shows(&vts));
        }
        if let Some(m) = violation::<C, I>(&c, &complete(&c, &w)) {
            return Err(format!("generated witness for public {} virtual {}: {}", shows(&pis), shows(&vts), m));
        }
    }
    Ok(())
}
fn logic_l(s: &mut Src) -> Res {
    each_pair!(s, logic_of)
}

/// Honest generation meets exactly the true assertions.
fn asserted_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let shape = Shape { steps: s.size(0, 8), publics: s.size(0, 4), virtuals: s.size(1, 5), logic: true, max_exp: 8 };
    let (ops, pis, vts) = program::<C::ScalarField>(s, shape);
    let values = run(&ops, &pis, &vts).unwrap();
    let mut asserts = vec![];
    for _ in 0..s.size(1, 5) {
        let a = some_assert(s, &values);
        if holds(&a, &values) {
            asserts.push(a);
        }
    }
    let want_true = s.bool();
    if !want_true {
        for _ in 0..8 {
            let a = some_assert(s, &values);
            if !holds(&a, &values) {
                let at = s.upto(asserts.len() + 1);
                asserts.insert(at, a);
                break;
            }
        }
    }
    if asserts.is_empty() {
        s.discarded = true;
        return Ok(());
    }
    let all = asserts.iter().all(|a| holds(a, &values));
    s.class(if all { "all true" } else { "one false" });
    s.nontrivial();
    s.note(|| format!("{:?} asserting {:?} on public {} virtual {}", ops, asserts, shows(&pis), shows(&vts)));
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit(&mut b, &ops);
    asserts.iter().for_each(|a| impose(&mut b, &t, a));
    let c = b.build();
    // generation may refuse a false assertion (by panicking, or by an unsatisfied witness)
    let got = catching(|| c.generate_partial_witness(assign(&ops, &t, &pis, &vts)));
    match got {
        Err(m) if all => return Err(format!("witness generation panics on true assertions: {}", m)),
        Err(_) => {}
        Ok(w) => {
            let v = violation::<C, I>(&c, &complete(&c, &w));
            if all {
                if let Some(m) = v {
                    return Err(format!("true assertions, unsatisfied witness: {}", m));
                }
            } else {
                ensure!(v.is_some(), "a false assertion has a satisfying witness");
            }
        }
    }
    Ok(())
}
fn asserted_l(s: &mut Src) -> Res {
    each_pair!(s, asserted_of)
}

/// An adversary fixes the inputs and chooses every other wire as it likes.
fn binding_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let shape = Shape { steps: s.size(1, 6), publics: s.size(0, 4), virtuals: s.size(1, 4), logic: true, max_exp: 8 };
    let (ops, pis, vts) = program::<C::ScalarField>(s, shape);
    let values = run(&ops, &pis, &vts).unwrap();
    let asserts: Vec<Assert> = (0..s.size(0, 3)).map(|_| some_assert(s, &values)).collect();
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit(&mut b, &ops);
    // a virtual target that nothing uses has no wire, so nothing can be asserted of it
    for &x in &t {
        if let Target::VirtualTarget(_) = x {
            b.square(x);
        }
    }
    asserts.iter().for_each(|a| impose(&mut b, &t, a));
    let c = b.build();
    let sys = System::of::<I>(&c, &t);
    s.note(|| format!("{:?} asserting {:?}", ops, asserts));
    for round in 0..6 {
        let (pis, vts): (Vec<_>, Vec<_>) = if round < 2 {
            (pis.clone(), vts.clone())
        } else {
            let mut small = |n: usize| -> Vec<C::ScalarField> { (0..n).map(|_| if s.bool() { elem(s) } else { C::ScalarField::from_canonical_u64(s.below(2)) }).collect() };
            (small(pis.len()), small(vts.len()))
        };
        let want = run(&ops, &pis, &vts);
        let mut v = vec![None; sys.classes];
        let mut clash = false;
        for (i, op) in ops.iter().enumerate() {
            let x = match op {
                Op::Public(k) => pis[*k],
                Op::Virtual(k) => vts[*k],
                _ => continue,
            };
            if let Some(k) = sys.class(t[i]) {
                clash |= v[k].map_or(false, |y| y != x);
                v[k] = Some(x);
            }
        }
        // inputs copied to one another cannot be set apart
        if clash {
            continue;
        }
        let sane = want.as_ref().map_or(false, |w| asserts.iter().all(|a| holds(a, w)));
        let honest = if sane && round % 2 == 0 { catching(|| c.generate_partial_witness(assign(&ops, &t, &pis, &vts))).ok().map(|w| complete(&c, &w)) } else { None };
        let guesses = sys.solve(s, &mut v, |s, k| match s.upto(4) {
            0 => C::ScalarField::from_canonical_u64(s.below(2)),
            1 => C::ScalarField::NEG_ONE,
            2 => elem(s),
            _ => match &honest {
                Some(w) => sys.value(w, k),
                None => elem(s),
            },
        });
        if guesses > 0 {
            s.nontrivial();
            s.class("hints chosen by the adversary");
        }
        let w = sys.witness(&v);
        if violation::<C, I>(&c, &w).is_some() {
            s.class("refuted");
            continue;
        }
        s.class("satisfied");
        let at = || format!("(public {} virtual {})", shows(&pis), shows(&vts));
        let want = match want {
            Some(w) => w,
            None => return Err(format!("the inverse of zero has a satisfying witness {}", at())),
        };
        for a in &asserts {
            ensure!(holds(a, &want), "the false assertion {:?} has a satisfying witness {}", a, at());
        }
        for (i, op) in ops.iter().enumerate() {
            if let Some(y) = sys.class(t[i]).and_then(|k| v[k]) {
                ensure!(y == want[i], "a satisfying witness gives step {} ({:?}) the value {} instead of {} {}", i, op, show(y), show(want[i]), at());
            }
        }
    }
    Ok(())
}
fn binding_l(s: &mut Src) -> Res {
    each_pair!(s, binding_of)
}

/// The value of `bits` binary or base 4 digits.
fn below_bits<F: FieldRef>(s: &mut Src, bits: usize) -> F {
    let top = BigUint::from(1u32) << bits;
    let x = match s.upto(4) {
        0 => big::<F>(elem(s)) % &top,
        1 => &top - 1u32,
        2 => BigUint::from(s.below(16)) % &top,
        _ => (BigUint::from(1u32) << s.upto(bits.max(1))) % &top,
    };
    fe(&(x % p::<F>()))
}
fn split_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let full = <C::ScalarField as Field>::BITS;
    let num_bits = s.size(0, full);
    let num_dibits = s.size(0, full / 2);
    let mut b = CircuitBuilder::<C>::new(128);
    let x = b.add_virtual_target();
    // use it, so that it gets a wire
    b.square(x);
    let bits = vp_hooks::split_binary(&mut b, x, num_bits);
    let dibits = vp_hooks::split_base_4(&mut b, x, num_dibits);
    let c = b.build();
    s.note(|| format!("{} bits, {} base 4 digits", num_bits, num_dibits));
    if num_bits > 8 && num_dibits > 8 {
        s.nontrivial();
    }
    for _ in 0..6 {
        let v: C::ScalarField = if s.bool() { elem(s) } else { below_bits(s, full - 1) };
        let mut w = PartialWitness::new();
        w.set_target(x, v);
        let w = c.generate_partial_witness(w);
        let n = big(v);
        ensure!(bits.len() == num_bits && dibits.len() == num_dibits, "number of digits");
        for (i, &t) in bits.iter().enumerate() {
            let want = (&n >> i) % 2u32;
            ensure!(big(w.get_target(t)) == want, "bit {} of {} is {}", i, show(v), show(w.get_target(t)));
        }
        for (i, &t) in dibits.iter().enumerate() {
            let want = (&n >> (2 * i)) % 4u32;
            ensure!(big(w.get_target(t)) == want, "base 4 digit {} of {} is {}", i, show(v), show(w.get_target(t)));
        }
    }
    Ok(())
}
fn split_l(s: &mut Src) -> Res {
    each_pair!(s, split_of)
}

/// Range checks accept exactly the values in range.
fn range_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let mut b = CircuitBuilder::<C>::new(128);
    let all = s.bool();
    // either one value of so many base 4 digits, or many values of one digit each
    let n = if all { s.size(1, 12) } else { s.size(1, 60) };
    let xs = b.add_virtual_targets(if all { n } else { 1 });
    let digits = if all {
        b.assert_all_base_4(&xs);
        1
    } else {
        vp_hooks::assert_dibit_length(&mut b, xs[0], n);
        n
    };
    let limit = BigUint::from(1u32) << (2 * digits);
    let c = b.build();
    let sys = System::of::<I>(&c, &xs);
    s.note(|| format!("{} values of {} base 4 digits", xs.len(), digits));
    s.nontrivial();
    for _ in 0..5 {
        let mut v: Vec<C::ScalarField> = xs.iter().map(|_| below_bits(s, 2 * digits)).collect();
        if s.bool() {
            let k = s.upto(v.len());
            v[k] = match s.upto(3) {
                0 => fe(&limit),
                1 => C::ScalarField::NEG_ONE,
                _ => elem(s),
            };
        }
        let inside = v.iter().all(|&x| big(x) < limit);
        s.class(if inside { "in range" } else { "out of range" });
        let mut w = PartialWitness::new();
        w.set_targets(&xs, &v);
        match catching(|| c.generate_partial_witness(w)) {
            Err(m) => ensure!(!inside, "values {} are in range, but witness generation panics: {}", shows(&v), m),
            Ok(w) => {
                let m = violation::<C, I>(&c, &complete(&c, &w));
                if inside {
                    ensure!(m.is_none(), "values {} are in range, but {}", shows(&v), m.unwrap());
                } else {
                    ensure!(m.is_some(), "values {} are out of range, but the witness satisfies all constraints", shows(&v));
                }
            }
        }
        let mut a = vec![None; sys.classes];
        for (&t, &x) in xs.iter().zip(&v) {
            a[sys.class(t).unwrap()] = Some(x);
        }
        sys.solve(s, &mut a, |s, _| C::ScalarField::from_canonical_u64(s.below(4)));
        if violation::<C, I>(&c, &sys.witness(&a)).is_none() {
            ensure!(inside, "values {} are out of range, but some witness satisfies all constraints", shows(&v));
        }
    }
    Ok(())
}
fn range_l(s: &mut Src) -> Res {
    each_pair!(s, range_of)
}

/// The deterministic square root is the even one.
fn root_of<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let (c, x, y) = memo(format!("root {}", C::CNAME), || {
        let mut b = CircuitBuilder::<C>::new(128);
        let x = b.add_virtual_target();
        let y = b.deterministic_square_root(x);
        (b.build(), x, y)
    });
    let r: C::ScalarField = elem(s);
    let v = r * r;
    s.note(|| format!("square root of {}", show(v)));
    s.nontrivial();
    let even = if big(r) % 2u32 == BigUint::from(0u32) { r } else { C::ScalarField::ZERO - r };
    let fits = big(even) < BigUint::from(1u32) << 254;
    let mut w = PartialWitness::new();
    w.set_target(*x, v);
    match catching(|| c.generate_partial_witness(w)) {
        Err(m) => ensure!(!fits, "panics: {}", m),
        Ok(w) => {
            ensure!(w.get_target(*y) == even, "the root of {} is {}, not {}", show(v), show(w.get_target(*y)), show(even));
            if fits {
                if let Some(m) = violation::<C, I>(c, &complete(c, &w)) {
                    return Err(m);
                }
            }
        }
    }
    let sys = memo(format!("root system {}", C::CNAME), || System::of::<I>(c, &[*x, *y]));
    // the odd root
    if v != C::ScalarField::ZERO {
        let mut start = vec![None; sys.classes];
        start[sys.class(*x).unwrap()] = Some(v);
        start[sys.class(*y).unwrap()] = Some(C::ScalarField::ZERO - even);
        let open: Vec<usize> = (0..sys.classes).filter(|&k| start[k].is_none()).collect();
        // one wire after another takes up what the digits of the others leave
        for _ in 0..16 {
            let mut a = start.clone();
            let last = *s.pick(&open);
            let top = s.below(5);
            sys.solve_for(s, &mut a, last, |s, _| C::ScalarField::from_canonical_u64(s.below(top.max(1))));
            ensure!(violation::<C, I>(c, &sys.witness(&a)).is_some(), "the odd root of {} is accepted", show(v));
        }
    }
    Ok(())
}
fn root_l(s: &mut Src) -> Res {
    each_pair!(s, root_of)
}

fn main() {
    Suite::new("K02", "Random programs mixing arithmetic with tests, selection and negation of bits, and random lists of assertions over their steps; splits and range checks of every length; boundary and random inputs, with bits frequent. An adversary solves the built circuit's constraints after choosing hints itself. Non-trivial: at least two boolean steps; an assertion present; a hint left to the adversary; more than eight digits.")
        .law("logical gadgets compute their definition", 500, 20_000, logic_l)
        .law("honest witnesses satisfy exactly the true assertions", 1000, 40_000, asserted_l)
        .law("no choice of hints satisfies a false assertion or changes a result", 1200, 60_000, binding_l)
        .law("splits give the binary and base 4 digits", 200, 8_000, split_l)
        .law("range checks accept exactly the values in range", 300, 12_000, range_l)
        .law("the deterministic square root is the even root", 150, 6_000, root_l)
        .run();
}
