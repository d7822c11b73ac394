//! H01: the Rescue permutation, sponge, hashes and generator against a big-integer reference.
use num::bigint::BigUint;
use num::Integer;
use once_cell::sync::Lazy;
use plonky::*;
use rand::RngCore;
use rand_chacha::rand_core::SeedableRng;
use std::collections::HashMap;
use std::sync::Mutex;
use vh::gen::*;
use vh::refs::*;
use vh::*;

type B = BigUint;

/// Round constants: elements drawn from ChaCha8 seeded with 1337. A draw is one internal
/// (Montgomery) representation: limbs of the order's bit length, redrawn until below the order.
fn constants<F: FieldRef>(width: usize, rounds: usize) -> Vec<B> {
    let i = info::<F>();
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(1337);
    let strip = 64 * i.limbs - i.p.bits() as usize;
    (0..2 * width * rounds)
        .map(|_| loop {
            let mut v: Vec<u64> = (0..i.limbs).map(|_| rng.next_u64()).collect();
            *v.last_mut().unwrap() >>= strip;
            let b = limbs_to_big(&v);
            if b < i.p {
                break b * &i.r_inv % &i.p;
            }
        })
        .collect()
}
struct Par {
    alpha: B,
    /// 1/alpha modulo the group order
    root: B,
}
/// The smallest exponent above 3 that permutes the field, as published for these curves.
fn par<F: FieldRef>() -> Par {
    let m = p::<F>() - 1u32;
    let alpha: B = match F::NAME {
        "Bls12377Scalar" => B::from(11u32),
        _ => B::from(5u32),
    };
    assert!(alpha.gcd(&m) == B::from(1u32));
    // inverse: find n with alpha | 1 + n m
    let mut v = B::from(1u32);
    while &v % &alpha != B::from(0u32) {
        v += &m;
    }
    Par { root: &v / &alpha, alpha }
}
fn rounds(width: usize, security: usize) -> usize {
    // 2 * width * rounds >= security level, at least ten rounds
    let mut r = 10;
    while 2 * width * r < security {
        r += 1;
    }
    r
}
static CACHE: Lazy<Mutex<HashMap<(&'static str, usize, usize), std::sync::Arc<(Vec<B>, Vec<Vec<B>>)>>>> = Lazy::new(Default::default);
/// Round constants and the Cauchy matrix with nodes n..2n and 0..n.
fn tables<F: FieldRef>(width: usize, rounds: usize) -> std::sync::Arc<(Vec<B>, Vec<Vec<B>>)> {
    CACHE
        .lock()
        .unwrap()
        .entry((F::NAME, width, rounds))
        .or_insert_with(|| {
            let mds = (0..width).map(|r| (0..width).map(|c| inv_mod::<F>(&B::from((width + r - c) as u64))).collect()).collect();
            std::sync::Arc::new((constants::<F>(width, rounds), mds))
        })
        .clone()
}
fn permute<F: FieldRef>(mut st: Vec<B>, security: usize) -> Vec<B> {
    let w = st.len();
    let n = rounds(w, security);
    let t = tables::<F>(w, n);
    let (k, mds) = &*t;
    let par = par::<F>();
    let p = p::<F>();
    for half in 0..2 * n {
        let e = if half % 2 == 0 { &par.root } else { &par.alpha };
        st = st.iter().map(|x| x.modpow(e, p)).collect();
        st = (0..w)
            .map(|r| {
                let mut a = k[half * w + r].clone();
                for c in 0..w {
                    a += &mds[r][c] * &st[c];
                }
                a % p
            })
            .collect();
    }
    st
}
fn sponge<F: FieldRef>(inputs: &[B], outputs: usize, security: usize) -> Vec<B> {
    let mut st = vec![B::from(0u32); 4];
    for chunk in inputs.chunks(3) {
        for (i, x) in chunk.iter().enumerate() {
            st[i] = add_mod::<F>(&st[i], x);
        }
        st = permute::<F>(st, security);
    }
    let mut out = vec![];
    while out.len() < outputs {
        for x in st.iter().take(3) {
            if out.len() < outputs {
                out.push(x.clone());
            }
        }
        if out.len() < outputs {
            st = permute::<F>(st, security);
        }
    }
    out
}
fn bigs<F: Field>(v: &[F]) -> Vec<B> {
    v.iter().map(|&x| big(x)).collect()
}
fn level(s: &mut Src) -> usize {
    match s.upto(4) {
        0 => 128,
        1 => s.range(0, 90),
        2 => *s.pick(&[80, 81, 87, 88, 89, 95, 96, 97, 127, 129, 256]),
        _ => s.range(0, 300),
    }
}

fn permutation<F: FieldRef>(s: &mut Src) -> Res {
    let w = if s.bool() { 4 } else { s.range(1, 7) };
    let sec = level(s);
    let v: Vec<F> = (0..w).map(|_| elem::<F>(s)).collect();
    s.note(|| format!("{} width {} security {} {}", F::NAME, w, sec, shows(&v)));
    if v.iter().any(|&x| ordinary(x)) {
        s.nontrivial();
    }
    let got = rescue_permutation(&v, sec);
    ensure!(bigs(&got) == permute::<F>(bigs(&v), sec), "{} permutation of width {}, security {} of {}", F::NAME, w, sec, shows(&v));
    Ok(())
}

fn hashes<F: FieldRef>(s: &mut Src) -> Res {
    let n = s.tail(0, 10, 90, 40);
    let m = s.tail(1, 8, 40, 40);
    let sec = level(s);
    let v: Vec<F> = if s.bool() { (0..n).map(|_| elem::<F>(s)).collect() } else { many(s, n) };
    s.note(|| format!("{} security {} {} -> {}", F::NAME, sec, shows(&v), m));
    if v.iter().any(|&x| ordinary(x)) {
        s.nontrivial();
    }
    if n > 3 {
        s.class("several blocks");
    }
    if m > 3 {
        s.class("several squeezes");
    }
    let b = bigs(&v);
    let want = sponge::<F>(&b, m.max(3), sec);
    let got = rescue_sponge(v.clone(), m, sec);
    ensure!(bigs(&got) == want[..m], "{} sponge of {} inputs and {} outputs, security {}", F::NAME, n, m, sec);
    match s.upto(3) {
        0 => ensure!(big(rescue_hash_n_to_1(v.clone(), sec)) == want[0], "{} n to 1 of {} inputs", F::NAME, n),
        1 => {
            let (a, c) = rescue_hash_n_to_2(v.clone(), sec);
            ensure!(bigs(&[a, c]) == want[..2], "{} n to 2 of {} inputs", F::NAME, n)
        }
        _ => {
            let (a, c, d) = rescue_hash_n_to_3(v.clone(), sec);
            ensure!(bigs(&[a, c, d]) == want[..3], "{} n to 3 of {} inputs", F::NAME, n)
        }
    }
    if n == 1 {
        ensure!(big(rescue_hash_1_to_1(v[0], sec)) == want[0], "{} 1 to 1", F::NAME);
    }
    // a list that differs in one element, or in the order of its elements, has another digest
    if n > 0 {
        let mut u = v.clone();
        let (i, j) = (s.upto(n), s.upto(n));
        if u[i] != u[j] && s.bool() {
            u.swap(i, j);
        } else {
            u[i] = u[i] + nonzero::<F>(s);
        }
        let other = rescue_sponge(u.clone(), m, sec);
        ensure!(got[0] != other[0], "{} {} and {} have the same digest", F::NAME, shows(&v), shows(&u));
    }
    Ok(())
}

/// The pseudo-random function and generator built on the hash, over a history of draws.
fn generator<F: FieldRef>(s: &mut Src) -> Res {
    let seeded = s.bool();
    let seed = elem::<F>(s);
    let mut g: PRFBasedPRG<F, RescuePrf> = if seeded { PRFBasedPRG::seeded(RescuePrf::default(), seed) } else { PRFBasedPRG::unseeded(RescuePrf::default()) };
    let mut st = if seeded { big(seed) } else { B::from(0u32) };
    let n = s.range(1, 6);
    s.note(|| format!("{} seeded={} {} draws {}", F::NAME, seeded, show(seed), n));
    if n > 1 {
        s.nontrivial();
    }
    for k in 0..n {
        st = sponge::<F>(&[st], 1, 128)[0].clone();
        let low = big_to_limbs(&st, F::LIMBS)[0];
        match s.upto(3) {
            0 => ensure!(big(g.next_field()) == st, "{} draw {}: field", F::NAME, k),
            1 => ensure_eq!(g.next_u32(), low as u32, "{} draw {}: u32", F::NAME, k),
            _ => ensure_eq!(g.next_bool(), low & 1 == 1, "{} draw {}: bool", F::NAME, k),
        }
    }
    Ok(())
}

fn main() {
    Suite::new("H01", "a case is a field, a security level (0..300, around the points where the round count changes) and a state of width 1..7, an input list of length 0..10 with 1..8 outputs, or a history of generator draws; non-trivial = some input is not 0, 1 or -1 (histories: more than one draw)")
        .assume("the reference is a big-integer Rescue with constants drawn from ChaCha8 (seed 1337), a Cauchy matrix, and sponge rate 3, capacity 1 without padding; so only lists of equal length are required to differ")
        .law("permutation", 12_000, 300_000, |s| each_field!(s, permutation))
        .law("hashes", 8_000, 200_000, |s| each_field!(s, hashes))
        .law("generator", 1_500, 40_000, |s| each_field!(s, generator))
        .run()
}
