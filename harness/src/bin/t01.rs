//! T01: the Fiat-Shamir transcript over arbitrary histories of observations and challenge requests.
use plonky::plonk_challenger::Challenger;
use plonky::*;
use std::collections::HashSet;
use vh::gen::*;
use vh::refs::*;
use vh::*;

#[derive(Clone, PartialEq, Debug)]
enum Op<F: Field> {
    Observe(F),
    Challenge,
}
/// The duplex sponge the module documents: rate 3, capacity 1; inputs are added blockwise with a
/// permutation after each block, outputs are taken from the rate part (last first), with another
/// permutation when they are used up.
struct Model<F: Field> {
    state: Vec<F>,
    input: Vec<F>,
    output: Vec<F>,
    bits: usize,
}
impl<F: Field> Model<F> {
    fn new(bits: usize) -> Self {
        Model { state: vec![F::ZERO; 4], input: vec![], output: vec![], bits }
    }
    fn challenge(&mut self) -> F {
        let input = std::mem::take(&mut self.input);
        for block in input.chunks(3) {
            for (i, &x) in block.iter().enumerate() {
                self.state[i] = self.state[i] + x;
            }
            self.state = rescue_permutation(&self.state, self.bits);
            self.output = self.state[..3].to_vec();
        }
        if self.output.is_empty() {
            self.state = rescue_permutation(&self.state, self.bits);
            self.output = self.state[..3].to_vec();
        }
        self.output.pop().unwrap()
    }
    fn run(ops: &[Op<F>], bits: usize) -> Vec<F> {
        let mut m = Model::new(bits);
        let mut out = vec![];
        for op in ops {
            match op {
                Op::Observe(x) => {
                    m.input.push(*x);
                    m.output.clear();
                }
                Op::Challenge => out.push(m.challenge()),
            }
        }
        out
    }
}
fn run_code<F: Field>(ops: &[Op<F>], bits: usize) -> Vec<F> {
    let mut c = Challenger::new(bits);
    let mut out = vec![];
    for op in ops {
        match op {
            Op::Observe(x) => c.observe_element(*x),
            Op::Challenge => out.push(c.get_challenge()),
        }
    }
    out
}
fn history<F: FieldRef>(s: &mut Src) -> Vec<Op<F>> {
    let mut ops = vec![];
    for _ in 0..s.range(1, 6) {
        for _ in 0..s.tail(0, 8, 80, 60) {
            ops.push(Op::Observe(elem::<F>(s)));
        }
        for _ in 0..s.tail(0, 7, 40, 60) {
            ops.push(Op::Challenge);
        }
    }
    ops
}
fn show_ops<F: Field>(ops: &[Op<F>]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Observe(x) => format!("observe {}", show(*x)),
            Op::Challenge => "challenge".into(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn bits(s: &mut Src) -> usize {
    *s.pick(&[128, 10, 80, 127, 160, 200, 250])
}

fn histories<F: FieldRef>(s: &mut Src) -> Res {
    let b = bits(s);
    let ops = history::<F>(s);
    s.note(|| format!("{} security {}: {}", F::NAME, b, show_ops(&ops)));
    let c = run_code(&ops, b);
    let obs = ops.iter().filter(|o| **o != Op::Challenge).count();
    if c.len() > 1 && obs > 0 {
        s.nontrivial();
    }
    ensure!(c == run_code(&ops, b), "{} not deterministic", F::NAME);
    // drawn in succession or after observations: never the same twice
    let distinct: HashSet<String> = c.iter().map(|&x| show(x)).collect();
    ensure!(distinct.len() == c.len(), "{} repeated challenges {} in: {}", F::NAME, shows(&c), show_ops(&ops));
    let want = Model::run(&ops, b);
    ensure!(c == want, "{} challenges {} differ from the documented sponge's {} in: {}", F::NAME, shows(&c), shows(&want), show_ops(&ops));
    Ok(())
}

/// One observed element changed, dropped, added or moved: all later challenges change, no earlier one.
fn binding<F: FieldRef>(s: &mut Src) -> Res {
    let b = bits(s);
    let mut ops = history::<F>(s);
    ops.push(Op::Observe(elem::<F>(s)));
    for _ in 0..s.range(1, 5) {
        ops.push(Op::Challenge);
    }
    let obs: Vec<usize> = (0..ops.len()).filter(|&i| ops[i] != Op::Challenge).collect();
    let i = obs[s.upto(obs.len())];
    let mut alt = ops.clone();
    let delta = nonzero::<F>(s);
    let value = |o: &Op<F>| match o {
        Op::Observe(x) => *x,
        _ => unreachable!(),
    };
    // what comes before the first altered operation is untouched; what comes after the last one is bound
    let (first, last_old, kind) = match s.upto(4) {
        0 => {
            alt[i] = Op::Observe(value(&ops[i]) + delta);
            (i, i, "changed")
        }
        1 if value(&ops[i]) != F::ZERO => {
            alt.remove(i);
            (i, i, "dropped")
        }
        2 => {
            alt.insert(i, Op::Observe(delta));
            (i, i, "added")
        }
        _ => {
            let j = obs[s.upto(obs.len())];
            let (i, j) = (i.min(j), i.max(j));
            if value(&ops[i]) == value(&ops[j]) {
                s.discarded = true;
                return Ok(());
            }
            alt.swap(i, j);
            // challenges between the two are bound to the first one already
            (i, i, "swapped")
        }
    };
    s.class(kind);
    s.nontrivial();
    s.note(|| format!("{} security {}: {}; {} at {}", F::NAME, b, show_ops(&ops), kind, first));
    let before = ops[..first].iter().filter(|o| **o == Op::Challenge).count();
    let _ = last_old;
    let (c, d) = (run_code(&ops, b), run_code(&alt, b));
    ensure_eq!(c.len(), d.len(), "number of challenges");
    ensure!(c[..before] == d[..before], "{} observation {} changed an earlier challenge in: {}", F::NAME, kind, show_ops(&ops));
    for k in before..c.len() {
        ensure!(c[k] != d[k], "{} challenge {} does not depend on the observation {} at step {} of: {}", F::NAME, k, kind, first, show_ops(&ops));
    }
    Ok(())
}

/// Batch calls and point observations are the element calls they stand for; clones continue alike.
fn grouping<C: CurveRef>(s: &mut Src) -> Res
where
    C::BaseField: FieldRef,
    C::ScalarField: FieldRef,
{
    let mut a = Challenger::<C::BaseField>::new(128);
    let mut ops: Vec<Op<C::BaseField>> = vec![];
    let mut got = vec![];
    let mut log = vec![];
    let some = |s: &mut Src| loop {
        if let Some(q) = point::<C>(s) {
            return q;
        }
    };
    for _ in 0..s.range(1, 6) {
        match s.upto(9) {
            0 => {
                let n = s.range(0, 7);
                let v = many::<C::BaseField>(s, n);
                a.observe_elements(&v);
                ops.extend(v.iter().map(|&x| Op::Observe(x)));
                log.push(format!("{} elements", n));
            }
            1 => {
                let q = some(s);
                a.observe_affine_point(aff::<C>(Some(q)));
                ops.push(Op::Observe(q.0));
                ops.push(Op::Observe(q.1));
                log.push("affine point".into());
            }
            2 => {
                let n = s.range(0, 4);
                let v: Vec<_> = (0..n).map(|_| some(s)).collect();
                a.observe_affine_points(&v.iter().map(|&q| aff::<C>(Some(q))).collect::<Vec<_>>());
                ops.extend(v.iter().flat_map(|q| vec![Op::Observe(q.0), Op::Observe(q.1)]));
                log.push(format!("{} affine points", n));
            }
            3 => {
                let q = some(s);
                a.observe_proj_point(proj::<C>(s, Some(q)));
                ops.push(Op::Observe(q.0));
                ops.push(Op::Observe(q.1));
                log.push("projective point".into());
            }
            4 => {
                let n = s.range(0, 4);
                let v: Vec<_> = (0..n).map(|_| some(s)).collect();
                let w: Vec<_> = v.iter().map(|&q| proj::<C>(s, Some(q))).collect();
                a.observe_proj_points(&w);
                ops.extend(v.iter().flat_map(|q| vec![Op::Observe(q.0), Op::Observe(q.1)]));
                log.push(format!("{} projective points", n));
            }
            5 => {
                let (x, y) = a.get_2_challenges();
                got.extend(vec![x, y]);
                ops.extend(vec![Op::Challenge; 2]);
                log.push("2 challenges".into());
            }
            6 => {
                let (x, y, z) = a.get_3_challenges();
                got.extend(vec![x, y, z]);
                ops.extend(vec![Op::Challenge; 3]);
                log.push("3 challenges".into());
            }
            7 => {
                let n = s.range(0, 6);
                got.extend(a.get_n_challenges(n));
                ops.extend(vec![Op::Challenge; n]);
                log.push(format!("{} challenges", n));
            }
            _ => {
                // a clone continues like the original and leaves it alone
                let mut b = a.clone();
                let mut more = ops.clone();
                more.push(Op::Challenge);
                let x = b.get_challenge();
                ensure!(Some(&x) == run_code(&more, 128).last(), "{} clone's challenge after: {}", C::CNAME, log.join(", "));
                b.observe_element(C::BaseField::ONE);
                log.push("clone".into());
            }
        }
    }
    ops.push(Op::Challenge);
    got.push(a.get_challenge());
    s.note(|| format!("{} {}", C::CNAME, log.join(", ")));
    s.nontrivial();
    ensure!(got == run_code(&ops, 128), "{} batch calls differ from single ones: {}", C::CNAME, log.join(", "));
    Ok(())
}

fn main() {
    Suite::new("T01", "a case is a field or curve and a history of up to six rounds of observations (boundary elements, points in any form) and challenge requests; the second law alters one observation; non-trivial = at least one observation and two challenges (first law), every altered history, every batch history")
        .assume("the permutation is the one checked by H01; collisions of a 250-bit permutation do not occur by chance")
        .assume("the sponge does not pad, so appending zeros inside a block is not required to be noticed (the number of elements observed is fixed by the protocol)")
        .law("histories", 3_000, 100_000, |s| each_field!(s, histories))
        .law("binding", 3_000, 100_000, |s| each_field!(s, binding))
        .law("grouping", 2_500, 80_000, |s| each_curve!(s, grouping))
        .run()
}
