//! F01: field arithmetic is exact arithmetic modulo the order.
use num::bigint::BigUint;
use num::Zero;
use plonky::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::gen::*;
use vh::refs::*;
use vh::*;

fn h<F: Field>(x: F) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}
/// The result must be the expected residue, equal to (and hashing like) an independently built one.
fn is<F: FieldRef>(what: &str, got: F, want: &BigUint) -> Res {
    ensure_eq!(big(got), *want, "{} {}", F::NAME, what);
    let w = fe::<F>(want);
    ensure!(got == w && h(got) == h(w), "{} {}: right residue but not the equal element", F::NAME, what);
    Ok(())
}

fn binary<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let a = residue(s, i);
    // sums at, just below and just above the order are the interesting ones for carries
    let b = match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => residue(s, i),
        1 => a.clone(),
        2 => neg_mod::<F>(&a),
        3 => (neg_mod::<F>(&a) + s.below(3)) % &i.p,
        _ => (neg_mod::<F>(&a) + &i.p - 1u32 - s.below(3)) % &i.p,
    };
    let (x, y) = (fe::<F>(&a), fe::<F>(&b));
    s.note(|| format!("{} a={} b={}", F::NAME, show(x), show(y)));
    if ordinary(x) && ordinary(y) {
        s.nontrivial();
    }
    if &a + &b >= i.p {
        s.class("sum wraps");
    }
    is("a + b", x + y, &add_mod::<F>(&a, &b))?;
    is("a - b", x - y, &sub_mod::<F>(&a, &b))?;
    is("b - a", y - x, &sub_mod::<F>(&b, &a))?;
    is("a * b", x * y, &mul_mod::<F>(&a, &b))?;
    is("(a - b) * (a + b)", (x - y) * (x + y), &sub_mod::<F>(&mul_mod::<F>(&a, &a), &mul_mod::<F>(&b, &b)))?;
    ensure!(((x == y) == (a == b)), "{} equality of a and b", F::NAME);
    ensure!(x + y - y == x && y - (y - x) == x, "{} adding then subtracting b", F::NAME);
    if !b.is_zero() {
        is("a / b", x / y, &mul_mod::<F>(&a, &inv_mod::<F>(&b)))?;
    }
    Ok(())
}

fn unary<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let a = residue(s, i);
    let x = fe::<F>(&a);
    s.note(|| format!("{} a={}", F::NAME, show(x)));
    if ordinary(x) {
        s.nontrivial();
    }
    is("-a", -x, &neg_mod::<F>(&a))?;
    let sq = mul_mod::<F>(&a, &a);
    is("a.square()", x.square(), &sq)?;
    is("a.cube()", x.cube(), &mul_mod::<F>(&sq, &a))?;
    is("a.double()", x.double(), &(&a * 2u32 % &i.p))?;
    is("a.triple()", x.triple(), &(&a * 3u32 % &i.p))?;
    is("a.quadruple()", x.quadruple(), &(&a * 4u32 % &i.p))?;
    ensure!(x.is_zero() == a.is_zero() && x.is_nonzero() != a.is_zero(), "{} is_zero", F::NAME);
    ensure!(x.is_one() == (a == BigUint::from(1u32)), "{} is_one", F::NAME);
    match x.multiplicative_inverse() {
        None => ensure!(a.is_zero(), "{} no inverse reported for {}", F::NAME, show(x)),
        Some(v) => {
            ensure!(!a.is_zero(), "{} an inverse reported for zero", F::NAME);
            is("1/a", v, &inv_mod::<F>(&a))?;
            is("1/a (assuming nonzero)", x.multiplicative_inverse_assuming_nonzero(), &inv_mod::<F>(&a))?;
        }
    }
    Ok(())
}

fn exps<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let (a, e) = (residue(s, i), residue(s, i));
    let x = fe::<F>(&a);
    s.note(|| format!("{} a={} e={}", F::NAME, show(x), e.to_str_radix(16)));
    if ordinary(x) && e > BigUint::from(1u32) {
        s.nontrivial();
    }
    let pw = |e: &BigUint| if e.is_zero() { BigUint::from(1u32) } else { a.modpow(e, &i.p) };
    is("a^e", x.exp(fe::<F>(&e)), &pw(&e))?;
    let k = match s.upto(4) {
        0 => s.below(70),
        1 => 1u64 << s.below(64),
        2 => s.below(1 << 20),
        _ => s.u64(),
    };
    is("a^usize", x.exp_usize(k as usize), &pw(&BigUint::from(k)))?;
    is("a^u32", x.exp_u32(k as u32), &pw(&BigUint::from(k as u32)))?;
    Ok(())
}

fn batches<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let n = s.tail(0, 40, 700, 200);
    let zeros = s.bool();
    let v: Vec<BigUint> = (0..n)
        .map(|_| {
            if zeros && s.chance(1, 4) {
                BigUint::zero()
            } else {
                let r = residue(s, i);
                if r.is_zero() && !zeros {
                    BigUint::from(7u32)
                } else {
                    r
                }
            }
        })
        .collect();
    let xs: Vec<F> = v.iter().map(|b| fe::<F>(b)).collect();
    s.note(|| format!("{} {:?}", F::NAME, xs.iter().map(|&x| show(x)).collect::<Vec<_>>()));
    if n > 1 {
        s.nontrivial();
    }
    let opt = F::batch_multiplicative_inverse_opt(&xs);
    ensure_eq!(opt.len(), n, "{} batch length", F::NAME);
    for k in 0..n {
        match opt[k] {
            None => ensure!(v[k].is_zero(), "{} batch reports no inverse at {}", F::NAME, k),
            Some(y) => {
                ensure!(!v[k].is_zero(), "{} batch reports inverse of zero at {}", F::NAME, k);
                is("batch 1/a (opt)", y, &inv_mod::<F>(&v[k]))?;
            }
        }
    }
    if v.iter().all(|b| !b.is_zero()) {
        s.class("all nonzero");
        let inv = F::batch_multiplicative_inverse(&xs);
        ensure_eq!(inv.len(), n, "{} batch length", F::NAME);
        for k in 0..n {
            is("batch 1/a", inv[k], &inv_mod::<F>(&v[k]))?;
        }
    }
    // slices
    let w: Vec<BigUint> = (0..n).map(|_| residue(s, i)).collect();
    let ys: Vec<F> = w.iter().map(|b| fe::<F>(b)).collect();
    let ip = v.iter().zip(&w).fold(BigUint::zero(), |acc, (a, b)| (acc + a * b) % &i.p);
    is("inner product", F::inner_product(&xs, &ys), &ip)?;
    let sums = F::add_slices(&xs, &ys);
    let c = residue(s, i);
    let scaled = fe::<F>(&c).scale_slice(&xs);
    ensure!(sums.len() == n && scaled.len() == n, "{} slice lengths", F::NAME);
    for k in 0..n {
        is("slice sum", sums[k], &add_mod::<F>(&v[k], &w[k]))?;
        is("slice scaling", scaled[k], &mul_mod::<F>(&v[k], &c))?;
    }
    Ok(())
}

/// A history of operations: every intermediate result stays canonical and exact.
fn chains<F: FieldRef>(s: &mut Src) -> Res {
    let i = info::<F>();
    let mut regs: Vec<BigUint> = (0..3).map(|_| residue(s, i)).collect();
    let mut xs: Vec<F> = regs.iter().map(|b| fe::<F>(b)).collect();
    let steps = s.size(1, 30);
    s.note(|| format!("{} start {:?}", F::NAME, xs.iter().map(|&x| show(x)).collect::<Vec<_>>()));
    if steps > 3 {
        s.nontrivial();
    }
    for _ in 0..steps {
        let (a, b, d) = (s.upto(3), s.upto(3), s.upto(3));
        let op = s.upto(9);
        let (v, x) = match op {
            0 => (add_mod::<F>(&regs[a], &regs[b]), xs[a] + xs[b]),
            1 => (sub_mod::<F>(&regs[a], &regs[b]), xs[a] - xs[b]),
            2 => (mul_mod::<F>(&regs[a], &regs[b]), xs[a] * xs[b]),
            3 => (mul_mod::<F>(&regs[a], &regs[a]), xs[a].square()),
            4 => (&regs[a] * 2u32 % &i.p, xs[a].double()),
            5 => (&regs[a] * 3u32 % &i.p, xs[a].triple()),
            6 => (neg_mod::<F>(&regs[a]), -xs[a]),
            7 => (&regs[a] * 4u32 % &i.p, xs[a].quadruple()),
            _ => {
                if regs[a].is_zero() {
                    (regs[b].clone(), xs[b])
                } else {
                    (inv_mod::<F>(&regs[a]), xs[a].multiplicative_inverse().ok_or("no inverse")?)
                }
            }
        };
        s.note(|| format!("op{} r{} r{} -> r{}", op, a, b, d));
        is("chain step", x, &v)?;
        regs[d] = v;
        xs[d] = x;
    }
    Ok(())
}

fn constants<F: FieldRef>(s: &mut Src) -> Res {
    s.nontrivial();
    let i = info::<F>();
    for (n, c, v) in [("ZERO", F::ZERO, 0u32), ("ONE", F::ONE, 1), ("TWO", F::TWO, 2), ("THREE", F::THREE, 3), ("FOUR", F::FOUR, 4), ("FIVE", F::FIVE, 5)].iter() {
        is(n, *c, &BigUint::from(*v))?;
    }
    is("NEG_ONE", F::NEG_ONE, &(&i.p - 1u32))?;
    is("default", F::default(), &BigUint::zero())?;
    ensure_eq!(F::BITS as u64, i.p.bits(), "{} BITS", F::NAME);
    s.note(|| F::NAME.to_string());
    Ok(())
}

fn main() {
    Suite::new("F01", "a case is a field and operands drawn from boundary-heavy residues (small, p-small, extreme limb patterns of the canonical and of the Montgomery representation, powers of two, uniform); non-trivial = operands other than 0, 1, -1 (lists: more than one element; histories: more than three steps)")
        .assume("num-bigint integer arithmetic is the oracle")
        .law("binary operations", 2_000_000, 60_000_000, |s| each_field!(s, binary))
        .law("unary operations", 600_000, 15_000_000, |s| each_field!(s, unary))
        .law("exponentiation", 60_000, 2_000_000, |s| each_field!(s, exps))
        .law("lists", 30_000, 1_000_000, |s| each_field!(s, batches))
        .law("histories", 150_000, 5_000_000, |s| each_field!(s, chains))
        .law("constants", 60, 60, |s| each_field!(s, constants))
        .run()
}
