//! Circuits: memoised construction, satisfaction of complete witnesses.
use crate::gen::*;
use crate::refs::*;
use plonky::*;
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

type Slot = Arc<Mutex<Option<&'static (dyn Any + Send + Sync)>>>;
/// Build something expensive once per process (concurrent callers of the same key wait).
pub fn memo<T: Any + Sync>(key: String, make: impl FnOnce() -> T) -> &'static T {
    static ALL: once_cell::sync::Lazy<Mutex<HashMap<String, Slot>>> = once_cell::sync::Lazy::new(Default::default);
    let slot = ALL.lock().unwrap_or_else(|e| e.into_inner()).entry(key).or_default().clone();
    let mut slot = slot.lock().unwrap_or_else(|e| e.into_inner());
    if slot.is_none() {
        // a reference to T is Send because T is Sync
        let t: &'static T = Box::leak(Box::new(make()));
        *slot = Some(Box::leak(Box::new(t)));
    }
    *slot.unwrap().downcast_ref::<&'static T>().expect("one type per key")
}

/// Rows next to row `i` that its constraints may refer to.
pub fn right(i: usize, n: usize) -> usize {
    (i + 1) % n
}
pub fn below(i: usize, n: usize) -> usize {
    (i + GRID) % n
}
pub fn wire_row<F: Field>(w: &Witness<F>, i: usize) -> Vec<F> {
    (0..WIRES).map(|j| w.get_indices(i, j)).collect()
}
/// First gate constraint a complete witness violates.
pub fn gate_violation<C, I>(c: &Circuit<C>, w: &Witness<C::ScalarField>) -> Option<String>
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    let n = c.gate_constants.len();
    let rows: Vec<Vec<C::ScalarField>> = (0..n).map(|i| wire_row(w, i)).collect();
    for i in 0..n {
        let v = evaluate_all_constraints::<C, I>(&c.gate_constants[i], &rows[i], &rows[right(i, n)], &rows[below(i, n)]);
        if let Some(j) = v.iter().position(|&x| x != C::ScalarField::ZERO) {
            return Some(format!("row {} of {} (constants {}, wires {}) violates constraint {}", i, n, shows(&c.gate_constants[i]), shows(&rows[i]), j));
        }
    }
    None
}
/// First copy class of the circuit whose wires differ in a complete witness.
pub fn copy_violation<C: HaloCurve>(c: &Circuit<C>, w: &Witness<C::ScalarField>) -> Option<String> {
    for gate in 0..c.gate_constants.len() {
        for input in 0..WIRES {
            let me = Wire { gate, input };
            for &t in c.routing_target_partitions.get_partition(Target::Wire(me)) {
                if let Target::Wire(o) = t {
                    if w.get(me) != w.get(o) {
                        return Some(format!("copied wires {:?} = {} and {:?} = {}", me, show(w.get(me)), o, show(w.get(o))));
                    }
                }
            }
        }
    }
    None
}
pub fn violation<C, I>(c: &Circuit<C>, w: &Witness<C::ScalarField>) -> Option<String>
where
    C: HaloCurve,
    I: HaloCurve + Curve<BaseField = C::ScalarField>,
{
    gate_violation::<C, I>(c, w).or_else(|| copy_violation(c, w))
}
pub fn complete<C: HaloCurve>(c: &Circuit<C>, w: &PartialWitness<C::ScalarField>) -> Witness<C::ScalarField> {
    Witness::from_partial(w, c.gate_constants.len())
}

/// Straight-line programs over the builder's gadgets. Operands are indices of earlier steps.
#[derive(Clone, Debug, PartialEq)]
pub enum Op<F: Field> {
    Public(usize),
    Virtual(usize),
    Const(F),
    ConstU32(u32),
    Add(usize, usize),
    AddMany(Vec<usize>),
    Sub(usize, usize),
    Mul(usize, usize),
    MulMany(Vec<usize>),
    Double(usize),
    Square(usize),
    Neg(usize),
    MulAdd(usize, usize, usize),
    MulSub(usize, usize, usize),
    Inv(usize),
    Div(usize, usize),
    Exp(usize, F),
    ExpUsize(usize, usize),
    IsZero(usize),
    IsNonzero(usize),
    IsEqual(usize, usize),
    IsNotEqual(usize, usize),
    Select(usize, usize, usize),
    Not(usize),
}
use Op::*;
/// Shape of the programs to draw.
#[derive(Clone, Copy)]
pub struct Shape {
    pub steps: usize,
    pub publics: usize,
    pub virtuals: usize,
    /// Include tests and selection.
    pub logic: bool,
    pub max_exp: u64,
}
fn small_or_random<F: FieldRef>(s: &mut crate::Src) -> F {
    if s.bool() {
        elem(s)
    } else {
        F::from_canonical_u64(s.below(4))
    }
}
pub fn is_bit<F: Field>(op: &Op<F>) -> bool {
    matches!(op, IsZero(_) | IsNonzero(_) | IsEqual(..) | IsNotEqual(..) | Not(_))
}
/// A program together with one assignment of its inputs under which no zero is inverted.
pub fn program<F: FieldRef>(s: &mut crate::Src, shape: Shape) -> (Vec<Op<F>>, Vec<F>, Vec<F>) {
    let mut ops: Vec<Op<F>> = vec![];
    let pis: Vec<F> = (0..shape.publics).map(|_| small_or_random(s)).collect();
    let vts: Vec<F> = (0..shape.virtuals).map(|_| small_or_random(s)).collect();
    ops.extend((0..shape.publics).map(Public));
    ops.extend((0..shape.virtuals).map(Virtual));
    for _ in 0..s.size(if ops.is_empty() { 1 } else { 0 }, 3) {
        let c = small_or_random(s);
        ops.push(if s.chance(1, 4) { ConstU32(s.below(1 << 32) as u32) } else { Const(c) });
    }
    let mut values = run(&ops, &pis, &vts).expect("leaves");
    for _ in 0..shape.steps {
        let n = ops.len();
        // recent steps are preferred, so that programs grow deep as well as wide
        let pick = |s: &mut crate::Src| if s.chance(1, 3) { n - 1 - s.upto(n.min(4)) } else { s.upto(n) };
        let (x, y, z) = (pick(s), pick(s), pick(s));
        let op = match s.weighted(&[3, 3, 3, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1, 1, if shape.logic { 14 } else { 0 }]) {
            0 => Add(x, y),
            1 => Sub(x, y),
            2 => Mul(x, y),
            3 => AddMany((0..s.size(0, 5)).map(|_| pick(s)).collect()),
            4 => MulMany((0..s.size(0, 4)).map(|_| pick(s)).collect()),
            5 => Double(x),
            6 => Square(x),
            7 => Neg(x),
            8 => MulAdd(x, y, z),
            9 => MulSub(x, y, z),
            10 => Inv(x),
            11 => Div(x, y),
            12 if shape.max_exp > 1000 && s.chance(1, 8) => ExpUsize(x, s.u64() as usize),
            12 => ExpUsize(x, if s.bool() { s.below(8) } else { s.below(shape.max_exp) } as usize),
            13 => {
                if shape.max_exp > 1000 && s.chance(1, 6) {
                    Exp(x, elem(s))
                } else {
                    Exp(x, F::from_canonical_u64(s.below(shape.max_exp)))
                }
            }
            _ => match s.upto(6) {
                0 => IsZero(x),
                1 => IsNonzero(x),
                2 => IsEqual(x, y),
                3 => IsNotEqual(x, y),
                k => {
                    let bits: Vec<usize> = (0..n).filter(|&i| is_bit(&ops[i])).collect();
                    match bits.last() {
                        None => IsEqual(x, x),
                        Some(_) if k == 4 => Not(bits[s.upto(bits.len())]),
                        Some(_) => Select(bits[s.upto(bits.len())], x, y),
                    }
                }
            },
        };
        match step(&op, &values, &pis, &vts) {
            Some(v) => {
                values.push(v);
                ops.push(op);
            }
            // inverse of zero
            None => {
                values.push(values[x] + values[y]);
                ops.push(Add(x, y));
            }
        }
    }
    (ops, pis, vts)
}
fn step<F: Field>(op: &Op<F>, v: &[F], pis: &[F], vts: &[F]) -> Option<F> {
    let b = |x: bool| if x { F::ONE } else { F::ZERO };
    let pow = |x: F, e: &num::BigUint| {
        let mut r = F::ONE;
        for i in (0..e.bits()).rev() {
            r = r * r;
            if ((e >> i) % 2u32) == num::BigUint::from(1u32) {
                r = r * x;
            }
        }
        r
    };
    Some(match op {
        Public(i) => pis[*i],
        Virtual(i) => vts[*i],
        Const(c) => *c,
        ConstU32(c) => F::from_canonical_u64(*c as u64),
        Add(x, y) => v[*x] + v[*y],
        AddMany(t) => t.iter().fold(F::ZERO, |a, &i| a + v[i]),
        Sub(x, y) => v[*x] - v[*y],
        Mul(x, y) => v[*x] * v[*y],
        MulMany(t) => t.iter().fold(F::ONE, |a, &i| a * v[i]),
        Double(x) => v[*x] + v[*x],
        Square(x) => v[*x] * v[*x],
        Neg(x) => F::ZERO - v[*x],
        MulAdd(x, y, z) => v[*x] * v[*y] + v[*z],
        MulSub(x, y, z) => v[*x] * v[*y] - v[*z],
        Inv(x) => v[*x].multiplicative_inverse()?,
        Div(x, y) => v[*x] * v[*y].multiplicative_inverse()?,
        Exp(x, e) => pow(v[*x], &big(*e)),
        ExpUsize(x, e) => pow(v[*x], &num::BigUint::from(*e as u64)),
        IsZero(x) => b(v[*x] == F::ZERO),
        IsNonzero(x) => b(v[*x] != F::ZERO),
        IsEqual(x, y) => b(v[*x] == v[*y]),
        IsNotEqual(x, y) => b(v[*x] != v[*y]),
        Select(c, x, y) => {
            if v[*c] == F::ONE {
                v[*x]
            } else {
                v[*y]
            }
        }
        Not(x) => F::ONE - v[*x],
    })
}
/// The values of all steps; `None` if a zero is inverted.
pub fn run<F: Field>(ops: &[Op<F>], pis: &[F], vts: &[F]) -> Option<Vec<F>> {
    let mut v = vec![];
    for op in ops {
        let x = step(op, &v, pis, vts)?;
        v.push(x);
    }
    Some(v)
}
/// A constant, through one or another of the builder's constructors.
pub fn constant_by<C: HaloCurve>(b: &mut CircuitBuilder<C>, how: usize, c: C::ScalarField) -> Target<C::ScalarField> {
    type F<C> = <C as Curve>::ScalarField;
    match how % 3 {
        0 if c == F::<C>::ZERO => b.zero_wire(),
        0 if c == F::<C>::ONE => b.one_wire(),
        0 if c == F::<C>::TWO => b.two_wire(),
        0 if c == F::<C>::NEG_ONE => b.neg_one_wire(),
        1 => b.constant_wires(&[c + F::<C>::ONE, c, F::<C>::ZERO])[1],
        _ => b.constant_wire(c),
    }
}
/// Build the program with the builder's gadgets; the target of each step.
pub fn emit<C: HaloCurve>(b: &mut CircuitBuilder<C>, ops: &[Op<C::ScalarField>]) -> Vec<Target<C::ScalarField>> {
    let mut t: Vec<Target<C::ScalarField>> = vec![];
    for op in ops {
        let many = |l: &[usize]| -> Vec<Target<C::ScalarField>> { l.iter().map(|&i| t[i]).collect() };
        let x = match op {
            Public(_) => b.add_public_input(),
            Virtual(_) => b.add_virtual_target(),
            Const(c) => constant_by(b, t.len(), *c),
            ConstU32(c) => b.constant_wire_u32(*c),
            Add(x, y) => b.add(t[*x], t[*y]),
            AddMany(l) => b.add_many(&many(l)),
            Sub(x, y) => b.sub(t[*x], t[*y]),
            Mul(x, y) => b.mul(t[*x], t[*y]),
            MulMany(l) => b.mul_many(&many(l)),
            Double(x) => b.double(t[*x]),
            Square(x) => b.square(t[*x]),
            Neg(x) => b.neg(t[*x]),
            MulAdd(x, y, z) => b.mul_add(t[*x], t[*y], t[*z]),
            MulSub(x, y, z) => b.mul_sub(t[*x], t[*y], t[*z]),
            Inv(x) => b.inv(t[*x]),
            Div(x, y) => b.div(t[*x], t[*y]),
            Exp(x, e) => b.exp_constant(t[*x], *e),
            ExpUsize(x, e) => b.exp_constant_usize(t[*x], *e),
            IsZero(x) => b.is_zero(t[*x]),
            IsNonzero(x) => b.is_nonzero(t[*x]),
            IsEqual(x, y) => b.is_equal(t[*x], t[*y]),
            IsNotEqual(x, y) => b.is_not_equal(t[*x], t[*y]),
            Select(c, x, y) => b.select(t[*c], t[*x], t[*y]),
            Not(x) => b.not(t[*x]),
        };
        t.push(x);
    }
    t
}
/// Set the program's inputs.
pub fn assign<F: Field>(ops: &[Op<F>], targets: &[Target<F>], pis: &[F], vts: &[F]) -> PartialWitness<F> {
    let mut w = PartialWitness::new();
    for (op, &t) in ops.iter().zip(targets) {
        match op {
            Public(i) => w.set_target(t, pis[*i]),
            Virtual(i) => w.set_target(t, vts[*i]),
            _ => {}
        }
    }
    w
}

/// The constraint system of a built circuit, read off its public description: the copy classes of
/// its wires and, per row, the constraints with the classes each depends on (found by evaluation).
pub struct System<C: HaloCurve> {
    pub n: usize,
    pub constants: Vec<Vec<C::ScalarField>>,
    /// Class of wire `gate * WIRES + input`.
    pub class_of: Vec<usize>,
    pub classes: usize,
    /// Some wire of each class.
    member: Vec<usize>,
    target_class: HashMap<Target<C::ScalarField>, usize>,
    /// Row, constraint index, classes.
    eqs: Vec<(usize, usize, Vec<usize>)>,
    by_class: Vec<Vec<usize>>,
    /// Values between which a constraint of its own leaves a class the choice.
    choices: HashMap<usize, Vec<C::ScalarField>>,
    eval: fn(&[C::ScalarField], &[C::ScalarField], &[C::ScalarField], &[C::ScalarField]) -> Vec<C::ScalarField>,
}
impl<C: HaloCurve> System<C> {
    pub fn of<I: HaloCurve + Curve<BaseField = C::ScalarField>>(c: &Circuit<C>, targets: &[Target<C::ScalarField>]) -> Self {
        let n = c.gate_constants.len();
        let mut class_of = vec![usize::MAX; n * WIRES];
        let mut target_class = HashMap::new();
        let mut classes = 0;
        let mut member = vec![];
        for k in 0..n * WIRES {
            if class_of[k] == usize::MAX {
                class_of[k] = classes;
                for &t in c.routing_target_partitions.get_partition(Target::Wire(Wire { gate: k / WIRES, input: k % WIRES })) {
                    match t {
                        Target::Wire(w) => class_of[w.gate * WIRES + w.input] = classes,
                        t => {
                            target_class.insert(t, classes);
                        }
                    }
                }
                member.push(k);
                classes += 1;
            }
        }
        for &t in targets {
            if let Target::Wire(w) = t {
                target_class.insert(t, class_of[w.gate * WIRES + w.input]);
            }
        }
        let eval = evaluate_all_constraints::<C, I>;
        let mut known: HashMap<Vec<C::ScalarField>, Vec<Vec<usize>>> = HashMap::new();
        let mut eqs = vec![];
        let mut x = 0x1234_5678u64;
        let mut rnd = || {
            x = crate::splitmix(x);
            C::ScalarField::from_canonical_u64(x) * C::ScalarField::from_canonical_u64(crate::splitmix(x + 1)) * C::ScalarField::from_canonical_u64(crate::splitmix(x + 2)) * C::ScalarField::from_canonical_u64(crate::splitmix(x + 3))
        };
        for row in 0..n {
            let key = c.gate_constants[row].clone();
            let deps = known.entry(key.clone()).or_insert_with(|| {
                let base: Vec<C::ScalarField> = (0..3 * WIRES).map(|_| rnd()).collect();
                let at = |v: &[C::ScalarField]| eval(&key, &v[..WIRES], &v[WIRES..2 * WIRES], &v[2 * WIRES..]);
                let before = at(&base);
                let mut deps = vec![vec![]; before.len()];
                for k in 0..3 * WIRES {
                    let mut v = base.clone();
                    v[k] = rnd();
                    for (j, y) in at(&v).into_iter().enumerate() {
                        if y != before[j] {
                            deps[j].push(k);
                        }
                    }
                }
                deps
            });
            for (j, d) in deps.iter().enumerate() {
                if !d.is_empty() {
                    let mut cs: Vec<usize> = d
                        .iter()
                        .map(|&k| {
                            let r = match k / WIRES {
                                0 => row,
                                1 => right(row, n),
                                _ => below(row, n),
                            };
                            class_of[r * WIRES + k % WIRES]
                        })
                        .collect();
                    cs.sort_unstable();
                    cs.dedup();
                    eqs.push((row, j, cs));
                }
            }
        }
        let mut by_class = vec![vec![]; classes];
        for (i, (_, _, cs)) in eqs.iter().enumerate() {
            for &k in cs {
                by_class[k].push(i);
            }
        }
        let mut sys = System { n, constants: c.gate_constants.clone(), class_of, classes, member, target_class, eqs, by_class, choices: HashMap::new(), eval };
        let nothing = vec![None; classes];
        for k in 0..classes {
            let own: Vec<usize> = sys.by_class[k].iter().copied().filter(|&e| sys.eqs[e].2.len() == 1).collect();
            if !own.is_empty() {
                let small = (0..5).map(C::ScalarField::from_canonical_u64);
                let roots: Vec<C::ScalarField> = small.filter(|&x| own.iter().all(|&e| sys.at(sys.eqs[e].0, sys.eqs[e].1, &nothing, Some((k, x))) == C::ScalarField::ZERO)).collect();
                if roots.len() > 1 {
                    sys.choices.insert(k, roots);
                }
            }
        }
        sys
    }
    /// The class of a target that is connected to some wire.
    pub fn class(&self, t: Target<C::ScalarField>) -> Option<usize> {
        match t {
            Target::Wire(w) => Some(self.class_of[w.gate * WIRES + w.input]),
            t => self.target_class.get(&t).copied(),
        }
    }
    fn row_of(&self, r: usize, v: &[Option<C::ScalarField>], sub: Option<(usize, C::ScalarField)>) -> Vec<C::ScalarField> {
        (0..WIRES)
            .map(|j| {
                let k = self.class_of[r * WIRES + j];
                match sub {
                    Some((s, x)) if s == k => x,
                    _ => v[k].unwrap_or(C::ScalarField::ZERO),
                }
            })
            .collect()
    }
    fn at(&self, row: usize, j: usize, v: &[Option<C::ScalarField>], sub: Option<(usize, C::ScalarField)>) -> C::ScalarField {
        (self.eval)(&self.constants[row], &self.row_of(row, v, sub), &self.row_of(right(row, self.n), v, sub), &self.row_of(below(row, self.n), v, sub))[j]
    }
    /// Deduce every class value that some constraint, linear in it, forces.
    pub fn propagate(&self, v: &mut Vec<Option<C::ScalarField>>, mut todo: Vec<usize>) {
        while let Some(e) = todo.pop() {
            let (row, j, cs) = &self.eqs[e];
            let mut unknown = cs.iter().filter(|&&k| v[k].is_none());
            let k = match (unknown.next(), unknown.next()) {
                (Some(&k), None) => k,
                _ => continue,
            };
            let f: Vec<C::ScalarField> = (0..4).map(|x| self.at(*row, *j, v, Some((k, C::ScalarField::from_canonical_u64(x))))).collect();
            let d = f[1] - f[0];
            if d != C::ScalarField::ZERO && f[2] - f[1] == d && f[3] - f[2] == d {
                v[k] = Some(C::ScalarField::ZERO - f[0] * d.multiplicative_inverse().unwrap());
                todo.extend(self.by_class[k].iter().copied());
            }
        }
    }
    /// What a complete witness gives a class.
    pub fn value(&self, w: &Witness<C::ScalarField>, k: usize) -> C::ScalarField {
        let i = self.member[k];
        w.get_indices(i / WIRES, i % WIRES)
    }
    pub fn eqs_of(&self, k: usize) -> Vec<usize> {
        self.by_class[k].clone()
    }
    pub fn classes_of(&self, e: usize) -> &[usize] {
        &self.eqs[e].2
    }
    pub fn all_eqs(&self) -> Vec<usize> {
        (0..self.eqs.len()).rev().collect()
    }
    /// Complete a partial assignment, guessing what the constraints leave open; every class that
    /// appears in a constraint is assigned.
    pub fn solve(&self, s: &mut crate::Src, v: &mut Vec<Option<C::ScalarField>>, guess: impl Fn(&mut crate::Src, usize) -> C::ScalarField) -> usize {
        self.propagate(v, self.all_eqs());
        let mut open: Vec<usize> = (0..self.classes).filter(|&k| v[k].is_none() && !self.by_class[k].is_empty()).collect();
        // bits and digits are chosen before the constraints force others on them
        let apt = s.chance(3, 4);
        let mut first: Vec<usize> = if apt { open.iter().copied().filter(|k| self.choices.contains_key(k)).collect() } else { vec![] };
        let mut guesses = 0;
        while !open.is_empty() {
            let from = if first.is_empty() { &mut open } else { &mut first };
            let k = from.swap_remove(s.upto(from.len()));
            if v[k].is_none() {
                v[k] = Some(if apt { self.apt(s, k, v, &guess) } else { guess(s, k) });
                guesses += 1;
                self.propagate(v, self.by_class[k].clone());
            }
        }
        guesses
    }
    /// A value for a class: mostly one that the constraints in which nothing else is open allow.
    fn apt(&self, s: &mut crate::Src, k: usize, v: &[Option<C::ScalarField>], guess: &impl Fn(&mut crate::Src, usize) -> C::ScalarField) -> C::ScalarField {
        if s.chance(1, 8) {
            return guess(s, k);
        }
        if let Some(roots) = self.choices.get(&k) {
            return *s.pick(roots);
        }
        let zero = C::ScalarField::ZERO;
        for &e in &self.by_class[k] {
            let (row, j, cs) = &self.eqs[e];
            if cs.iter().any(|&x| x != k && v[x].is_none()) {
                continue;
            }
            let f: Vec<C::ScalarField> = (0..4).map(|x| self.at(*row, *j, v, Some((k, C::ScalarField::from_canonical_u64(x))))).collect();
            // a x^2 + b x + c, if the third difference vanishes
            if f[3] - f[2] - f[2] - f[2] + f[1] + f[1] + f[1] - f[0] != zero {
                continue;
            }
            let half = C::ScalarField::TWO.multiplicative_inverse().unwrap();
            let a = (f[2] - f[1] - f[1] + f[0]) * half;
            if a == zero {
                continue;
            }
            let b = f[1] - f[0] - a;
            if let Some(d) = (b * b - (a * f[0]).double().double()).square_root() {
                let d = if s.bool() { d } else { zero - d };
                return (d - b) * half * a.multiplicative_inverse().unwrap();
            }
        }
        guess(s, k)
    }
    /// `solve`, with the given class left to the constraints for as long as possible.
    pub fn solve_for(&self, s: &mut crate::Src, v: &mut Vec<Option<C::ScalarField>>, last: usize, guess: impl Fn(&mut crate::Src, usize) -> C::ScalarField) -> usize {
        self.propagate(v, self.all_eqs());
        let mut guesses = 0;
        for k in (0..self.classes).filter(|&k| k != last) {
            if v[k].is_none() && !self.by_class[k].is_empty() {
                v[k] = Some(guess(s, k));
                guesses += 1;
                self.propagate(v, self.by_class[k].clone());
            }
        }
        guesses + self.solve(s, v, guess)
    }
    /// The first violated constraint.
    pub fn violated(&self, v: &[Option<C::ScalarField>]) -> Option<(usize, usize)> {
        self.eqs.iter().find(|(row, j, _)| self.at(*row, *j, v, None) != C::ScalarField::ZERO).map(|(r, j, _)| (*r, *j))
    }
    pub fn witness(&self, v: &[Option<C::ScalarField>]) -> Witness<C::ScalarField> {
        Witness::new((0..self.n).map(|r| self.row_of(r, v, None)).collect())
    }
}
