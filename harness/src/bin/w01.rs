//! W01: copy requests, the wire partition, the permutation polynomials and the accumulator.
use plonky::plonk_util::{permutation_polynomial, sigma_polynomials};
use plonky::polynomial::Polynomial;
use plonky::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vh::circ::*;
use vh::gen::*;
use vh::refs::*;
use vh::*;

/// Union-find, the reference for partitions.
struct Union(Vec<usize>);
impl Union {
    fn new(n: usize) -> Self {
        Union((0..n).collect())
    }
    fn find(&mut self, mut x: usize) -> usize {
        while self.0[x] != x {
            self.0[x] = self.0[self.0[x]];
            x = self.0[x];
        }
        x
    }
    fn join(&mut self, a: usize, b: usize) {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
    }
}
fn wire(gate: usize, input: usize) -> Wire {
    Wire { gate, input }
}
/// Cycles of a permutation of `0..v.len()`, or why it is not one.
fn cycles(v: &[usize]) -> Result<Vec<BTreeSet<usize>>, String> {
    let mut seen = vec![false; v.len()];
    for (i, &x) in v.iter().enumerate() {
        ensure!(x < v.len(), "position {} is sent to {}, of {}", i, x, v.len());
        ensure!(!seen[x], "two positions are sent to {}", x);
        seen[x] = true;
    }
    let mut out = vec![];
    let mut done = vec![false; v.len()];
    for i in 0..v.len() {
        let mut c = BTreeSet::new();
        let mut k = i;
        while !done[k] {
            done[k] = true;
            c.insert(k);
            k = v[k];
        }
        if !c.is_empty() {
            out.push(c);
        }
    }
    Ok(out)
}
/// Pairs of copied positions: a few hubs, chains and random pairs.
fn requests(s: &mut Src, n: usize, most: usize) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    while r.len() < most {
        match s.weighted(&[4, 2, 2, 1, 1, 2]) {
            0 => r.push((s.upto(n), s.upto(n))),
            1 => {
                // chain onto the last request
                let a = r.last().map(|x| x.1).unwrap_or(0);
                r.push((a, s.upto(n)));
            }
            2 => {
                let a = r.first().map(|x| x.0).unwrap_or(0);
                r.push((s.upto(n), a));
            }
            3 => {
                let a = s.upto(n);
                r.push((a, a));
            }
            4 => {
                if let Some(&(a, b)) = r.last() {
                    r.push((b, a));
                } else {
                    r.push((0, 0));
                }
            }
            _ => break,
        }
    }
    r
}

/// Many copies at once: long chains, hubs and blocks of positions, described by a few numbers.
fn sweeps(s: &mut Src, n: usize, most: usize) -> Vec<(usize, usize)> {
    let mut r = vec![];
    for _ in 0..s.range(1, 4) {
        let (start, stride, count) = (s.upto(n), 1 + s.size(0, n - 1), s.range(most / 4, most));
        let at = |k: usize| (start + k * stride) % n;
        let (hub, shape) = (s.upto(n), s.upto(4));
        for k in 0..count {
            r.push(match shape {
                0 => (at(k), at(k + 1)),
                1 => (at(k), hub),
                2 => (at(k), start),
                _ => (at(k + 1), at(k)),
            });
        }
    }
    r
}

fn partitions<F: FieldRef>(s: &mut Src, large: bool) -> Res {
    let gates = if large { 1 << s.range(6, 10) } else { 1 << s.upto(6) };
    let virtuals = s.size(0, 8);
    let publics = s.size(0, 4);
    let n = gates * ROUTED;
    let total = n + virtuals + publics;
    let target = |k: usize| -> Target<F> {
        if k < n {
            // input-major, as in the permutation
            Target::Wire(wire(k % gates, k / gates))
        } else if k < n + virtuals {
            Target::VirtualTarget(VirtualTarget { index: k - n })
        } else {
            Target::PublicInput(PublicInput::new(k - n - virtuals))
        }
    };
    let mut reqs = vec![];
    for _ in 0..s.range(1, 4) {
        reqs.extend(requests(s, total, 60));
    }
    if large {
        let m = s.range(300, 1500).min(total);
        reqs.extend(sweeps(s, total, m));
    }
    s.note(|| format!("{} gates, {} virtual, {} public; copies {:?}", gates, virtuals, publics, reqs));
    let mut p = TargetPartitions::<F>::new();
    for k in n..total {
        p.add_partition(target(k));
    }
    for gate in 0..gates {
        for input in 0..WIRES {
            p.add_partition(Target::Wire(wire(gate, input)));
        }
    }
    let mut u = Union::new(total);
    for &(a, b) in &reqs {
        p.merge(target(a), target(b));
        u.join(a, b);
    }
    let mut classes: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for k in 0..total {
        let r = u.find(k);
        classes.entry(r).or_default().push(k);
    }
    if classes.values().any(|c| c.len() >= if large { 256 } else { 3 }) {
        s.nontrivial();
    }
    for c in classes.values() {
        let want: HashSet<Target<F>> = c.iter().map(|&k| target(k)).collect();
        // of a large class, some members
        for &k in c.iter().step_by(1 + c.len() / 40) {
            let got = p.get_partition(target(k));
            let set: HashSet<Target<F>> = got.iter().cloned().collect();
            ensure!(got.len() == set.len(), "the class of {:?} lists a member twice: {:?}", target(k), got);
            ensure!(set == want, "the class of {:?} is {:?}, expected {:?}", target(k), got, want);
        }
    }
    for gate in 0..gates {
        for input in ROUTED..WIRES {
            let t = Target::Wire(wire(gate, input));
            ensure!(p.get_partition(t) == [t], "non-routed {:?} is connected to {:?}", t, p.get_partition(t));
        }
    }
    let sigma = p.to_wire_partitions().to_sigma();
    ensure!(sigma.len() == n, "the permutation has {} entries for {} routed wires", sigma.len(), n);
    let got: BTreeSet<BTreeSet<usize>> = cycles(&sigma)?.into_iter().collect();
    let want: BTreeSet<BTreeSet<usize>> =
        classes.values().map(|c| c.iter().cloned().filter(|&k| k < n).collect::<BTreeSet<_>>()).filter(|c| !c.is_empty()).collect();
    ensure!(got == want, "cycles of the permutation {:?} differ from the copy classes {:?}", got, want);

    // the permutation as field values
    let g = F::primitive_root_of_unity(gates.trailing_zeros() as usize);
    let shifts: Vec<F> = sigma_polynomials::<F>((0..n).collect(), gates, g).iter().map(|r| r[0]).collect();
    ensure!(shifts.len() == ROUTED, "{} cosets for {} routed wires", shifts.len(), ROUTED);
    let mut ids: HashMap<F, usize> = HashMap::new();
    let h: Vec<F> = poly_powers(g, gates);
    for j in 0..ROUTED {
        for i in 0..gates {
            if let Some(o) = ids.insert(shifts[j] * h[i], j * gates + i) {
                return Err(format!("positions {} and {} have the same identifier", o, j * gates + i));
            }
        }
    }
    let rows = sigma_polynomials::<F>(sigma.clone(), gates, g);
    for j in 0..ROUTED {
        ensure!(rows[j].len() == gates, "{} values in row {}", rows[j].len(), j);
        for i in 0..gates {
            let k = ids.get(&rows[j][i]);
            ensure!(k == Some(&sigma[j * gates + i]), "input {} of gate {} is mapped to position {:?}, expected {}", j, i, k, sigma[j * gates + i]);
        }
    }
    // The accumulator. Values repeat across classes, so that exchanged values are common.
    let few: Vec<F> = (0..s.range(1, 4)).map(|_| elem(s)).collect();
    let mut value: Vec<F> = vec![F::ZERO; n];
    for c in classes.values() {
        let x = *s.pick(&few);
        for &k in c {
            if k < n {
                value[k] = x;
            }
        }
    }
    let tamper = s.weighted(&[2, 2, 1, 2]);
    match tamper {
        0 => {}
        1 => value[s.upto(n)] = if s.bool() { elem(s) } else { *s.pick(&few) },
        2 => value = (0..n).map(|_| *s.pick(&few)).collect(),
        _ => {
            let (a, b) = (s.upto(n), s.upto(n));
            value.swap(a, b);
        }
    }
    let consistent = classes.values().all(|c| {
        let w: Vec<usize> = c.iter().cloned().filter(|&k| k < n).collect();
        w.iter().all(|&k| value[k] == value[w[0]])
    });
    s.class(if consistent { "consistent values" } else { "inconsistent values" });
    let witness = Witness::new((0..gates).map(|i| (0..WIRES).map(|j| if j < ROUTED { value[j * gates + i] } else { uniform(s) }).collect()).collect());
    let spread: Vec<Vec<F>> = rows
        .iter()
        .map(|r| {
            let mut v = vec![F::ZERO; 8 * gates];
            for i in 0..gates {
                v[8 * i] = r[i];
            }
            v
        })
        .collect();
    let (beta, gamma): (F, F) = (uniform(s), uniform(s));
    closes(gates, &h, &shifts, &rows, &witness, &permutation_polynomial(gates, &h, &witness, &spread, beta, gamma), beta, gamma, consistent)
}
fn poly_powers<F: Field>(g: F, n: usize) -> Vec<F> {
    let mut v = vec![F::ONE];
    while v.len() < n {
        let x = *v.last().unwrap() * g;
        v.push(x);
    }
    v
}
/// The accumulator follows its recurrence, and returns to one exactly if `consistent`.
fn closes<F: FieldRef>(n: usize, h: &[F], shifts: &[F], rows: &[Vec<F>], w: &Witness<F>, z: &[F], beta: F, gamma: F, consistent: bool) -> Res {
    ensure!(z.len() == n, "{} accumulator values for {} gates", z.len(), n);
    ensure!(z[0] == F::ONE, "the accumulator starts at {}", show(z[0]));
    for i in 0..n {
        let (mut a, mut b) = (z[i], F::ONE);
        for j in 0..ROUTED {
            let x = w.get_indices(i, j);
            a = a * (x + beta * shifts[j] * h[i] + gamma);
            b = b * (x + beta * rows[j][i] + gamma);
        }
        if i + 1 < n {
            ensure!(a == b * z[i + 1], "accumulator step {} breaks the recurrence", i);
        } else {
            ensure!((a == b) == consistent, "the accumulator {} on {} wire values", if a == b { "closes" } else { "does not close" }, if consistent { "consistent" } else { "inconsistent" });
        }
    }
    Ok(())
}

/// Everything about a built circuit that the wiring determines.
fn described<C: HaloCurve + CurveRef>(s: &mut Src, c: &Circuit<C>) -> Result<(Vec<C::ScalarField>, Vec<Vec<C::ScalarField>>), String>
where
    C::ScalarField: FieldRef,
{
    let n = c.gate_constants.len();
    let g = c.subgroup_n.get(1).cloned().unwrap_or(C::ScalarField::ONE);
    ensure!(c.subgroup_n == poly_powers(g, n), "the subgroup is not the powers of its second element");
    let shifts: Vec<C::ScalarField> = sigma_polynomials::<C::ScalarField>((0..n * ROUTED).collect(), n, g).iter().map(|r| r[0]).collect();
    let mut ids = HashMap::new();
    for j in 0..ROUTED {
        for i in 0..n {
            if ids.insert(shifts[j] * c.subgroup_n[i], j * n + i).is_some() {
                return Err("two wires have the same identifier".into());
            }
        }
    }
    ensure!(c.s_sigma_polynomials.len() == ROUTED && c.s_sigma_values_8n.len() == ROUTED && c.c_s_sigmas.len() == ROUTED, "number of permutation polynomials");
    let mut sigma = vec![];
    let mut rows = vec![];
    for j in 0..ROUTED {
        let mut row = vec![];
        for i in 0..n {
            let x = c.s_sigma_values_8n[j][8 * i];
            match ids.get(&x) {
                Some(&k) => sigma.push(k),
                None => return Err(format!("input {} of gate {} is mapped to {}, no wire's identifier", j, i, show(x))),
            }
            row.push(x);
        }
        rows.push(row);
    }
    let got: BTreeSet<BTreeSet<usize>> = cycles(&sigma)?.into_iter().collect();
    let mut want = BTreeSet::new();
    for k in 0..n * ROUTED {
        let class = c.routing_target_partitions.get_partition(Target::Wire(wire(k % n, k / n)));
        want.insert(
            class
                .iter()
                .filter_map(|t| match t {
                    Target::Wire(w) => Some(w.input * n + w.gate),
                    _ => None,
                })
                .collect::<BTreeSet<usize>>(),
        );
    }
    if got != want {
        let odd: Vec<_> = want.symmetric_difference(&got).take(4).collect();
        return Err(format!("cycles of the circuit's permutation differ from its copy classes: {:?}", odd));
    }
    // polynomial forms: values on the subgroup, the extended domain, and the commitments
    let probe = |s: &mut Src| (s.upto(n), s.upto(8 * n));
    for j in 0..ROUTED {
        let (i, k) = probe(s);
        let p: &Polynomial<C::ScalarField> = &c.s_sigma_polynomials[j];
        ensure!(p.coeffs().len() <= n, "permutation polynomial {} has {} coefficients", j, p.coeffs().len());
        ensure!(poly::eval(p.coeffs(), c.subgroup_n[i]) == rows[j][i], "permutation polynomial {} at row {}", j, i);
        ensure!(poly::eval(p.coeffs(), c.subgroup_8n[k]) == c.s_sigma_values_8n[j][k], "extension of permutation polynomial {} at {}", j, k);
    }
    for j in 0..CONSTANTS {
        let (i, k) = probe(s);
        let p = &c.constant_polynomials[j];
        ensure!(p.coeffs().len() <= n, "constant polynomial {} has {} coefficients", j, p.coeffs().len());
        ensure!(poly::eval(p.coeffs(), c.subgroup_n[i]) == c.gate_constants[i].get(j).cloned().unwrap_or(C::ScalarField::ZERO), "constant polynomial {} at row {}", j, i);
        ensure!(poly::eval(p.coeffs(), c.subgroup_8n[k]) == c.constants_8n[j][k], "extension of constant polynomial {} at {}", j, k);
    }
    Ok((shifts, rows))
}

fn circuits<C: HaloCurve + CurveRef, I: HaloCurve + Curve<BaseField = C::ScalarField>>(s: &mut Src) -> Res
where
    C::ScalarField: FieldRef,
{
    let shape = Shape { steps: s.size(0, 25), publics: s.size(0, 22), virtuals: s.size(0, 8), logic: s.bool(), max_exp: 8 };
    let (ops, pis, vts) = program::<C::ScalarField>(s, shape);
    let values = run(&ops, &pis, &vts).expect("program");
    // Extra copies between targets: any pair for the wiring, pairs of equal value for a witness.
    let loose = s.chance(1, 2);
    let extra_v = s.size(0, 4);
    let extra: Vec<(usize, usize)> = if ops.len() + extra_v == 0 { vec![] } else { requests(s, ops.len() + extra_v, 25) };
    let mut value_of: Vec<Option<C::ScalarField>> = values.iter().cloned().map(Some).collect();
    value_of.resize(ops.len() + extra_v, None);
    let extra: Vec<(usize, usize)> = extra
        .into_iter()
        .filter(|&(a, b)| {
            if loose {
                return true;
            }
            match (value_of[a], value_of[b]) {
                (Some(x), Some(y)) => x == y,
                // a fresh virtual target is only copied to things with a value
                (None, Some(y)) => {
                    value_of[a] = Some(y);
                    true
                }
                (Some(x), None) => {
                    value_of[b] = Some(x);
                    true
                }
                _ => false,
            }
        })
        .collect();
    s.note(|| format!("{:?} on public {} virtual {}; copies {:?}", ops, shows(&pis), shows(&vts), extra));
    if extra.len() >= 2 {
        s.nontrivial();
    }
    let build = |copies: bool| {
        let mut b = CircuitBuilder::<C>::new(128);
        let mut t = emit(&mut b, &ops);
        t.extend(b.add_virtual_targets(extra_v));
        if copies {
            for &(x, y) in &extra {
                b.copy(t[x], t[y]);
            }
        }
        (b.build(), t)
    };
    let (plain, t) = build(false);
    let (c, t2) = build(true);
    ensure!(t == t2, "the same program has other targets");
    let n = c.gate_constants.len();
    ensure!(plain.gate_constants == c.gate_constants, "copies change the gates");
    // closure of the plain wiring and the extra copies
    let mut index: HashMap<Target<C::ScalarField>, usize> = HashMap::new();
    let mut all = vec![];
    let mut add = |x: Target<C::ScalarField>| {
        index.entry(x).or_insert_with(|| {
            all.push(x);
            all.len() - 1
        });
    };
    for gate in 0..n {
        for input in 0..WIRES {
            add(Target::Wire(wire(gate, input)));
        }
    }
    t.iter().for_each(|&x| add(x));
    for k in 0..all.len() {
        let x = all[k];
        for &y in plain.routing_target_partitions.get_partition(x) {
            if !index.contains_key(&y) {
                index.insert(y, all.len());
                all.push(y);
            }
        }
    }
    let mut u = Union::new(all.len());
    for &x in &all {
        for &y in plain.routing_target_partitions.get_partition(x) {
            u.join(index[&x], index[&y]);
        }
    }
    // targets of the plain circuit that nothing connects stay apart
    for &(x, y) in &extra {
        u.join(index[&t[x]], index[&t[y]]);
    }
    let mut classes: HashMap<usize, HashSet<Target<C::ScalarField>>> = HashMap::new();
    for k in 0..all.len() {
        let r = u.find(k);
        classes.entry(r).or_default().insert(all[k]);
    }
    for k in 0..all.len() {
        let r = u.find(k);
        let got = c.routing_target_partitions.get_partition(all[k]);
        let set: HashSet<Target<C::ScalarField>> = got.iter().cloned().collect();
        ensure!(set.len() == got.len() && set == classes[&r], "the class of {:?} is {:?}, the closure gives {:?}", all[k], got, classes[&r]);
    }
    // public inputs reach their own wires
    let offset = c.num_gates_without_pis;
    ensure!(c.num_public_inputs == pis.len(), "{} public inputs instead of {}", c.num_public_inputs, pis.len());
    for (i, op) in ops.iter().enumerate() {
        if let Op::Public(k) = op {
            let (gate, input) = (offset + 2 * (k / WIRES), k % WIRES);
            let w = if input < ROUTED { wire(gate, input) } else { wire(gate + 1, input - ROUTED) };
            let class = c.routing_target_partitions.get_partition(t[i]);
            ensure!(class.contains(&Target::Wire(w)), "public input {} is not connected to {:?}: {:?}", k, w, class);
        }
    }
    let (shifts, rows) = described(s, &c)?;

    let (beta, gamma) = (uniform(s), uniform(s));
    let z = |w: &Witness<C::ScalarField>| permutation_polynomial(n, &c.subgroup_n, w, &c.s_sigma_values_8n, beta, gamma);
    if !loose {
        s.class("generated witness");
        let p = c.generate_partial_witness(assign(&ops, &t, &pis, &vts));
        for (k, x) in value_of.iter().enumerate() {
            if let (Some(x), true) = (x, p.contains_target(t[k])) {
                ensure!(p.get_target(t[k]) == *x, "target {} has value {} instead of {}", k, show(p.get_target(t[k])), show(*x));
            }
        }
        let w = complete(&c, &p);
        if let Some(m) = copy_violation(&c, &w) {
            return Err(format!("generated witness: {}", m));
        }
        for &x in &all {
            let class = c.routing_target_partitions.get_partition(x);
            let with: Vec<bool> = class.iter().map(|&y| p.contains_target(y)).collect();
            ensure!(with.iter().all(|&b| b == with[0]), "only some members of a class get a value: {:?} {:?}", class, with);
            if with[0] {
                ensure!(class.iter().all(|&y| p.get_target(y) == p.get_target(x)), "members of a class get different values: {:?}", class);
            }
        }
        closes(n, &c.subgroup_n, &shifts, &rows, &w, &z(&w), beta, gamma, true)?;
        // one altered routed wire
        let (gate, input) = (s.upto(n), s.upto(ROUTED));
        let mut v: Vec<Vec<C::ScalarField>> = (0..n).map(|i| wire_row(&w, i)).collect();
        v[gate][input] = v[gate][input] + nonzero(s);
        let w = Witness::new(v);
        let broken = copy_violation(&c, &w).is_some();
        closes(n, &c.subgroup_n, &shifts, &rows, &w, &z(&w), beta, gamma, !broken)?;
    } else {
        // arbitrary values, one per class
        let mut v = vec![vec![C::ScalarField::ZERO; WIRES]; n];
        let mut memo: HashMap<usize, C::ScalarField> = HashMap::new();
        for gate in 0..n {
            for input in 0..WIRES {
                let r = u.find(index[&Target::Wire(wire(gate, input))]);
                v[gate][input] = *memo.entry(r).or_insert_with(|| C::ScalarField::from_canonical_u64(splitmix(r as u64 ^ n as u64) % 5));
            }
        }
        let w = Witness::new(v);
        closes(n, &c.subgroup_n, &shifts, &rows, &w, &z(&w), beta, gamma, true)?;
    }
    Ok(())
}

fn small<F: FieldRef>(s: &mut Src) -> Res {
    partitions::<F>(s, false)
}
fn large<F: FieldRef>(s: &mut Src) -> Res {
    partitions::<F>(s, true)
}
fn small_l(s: &mut Src) -> Res {
    each_field!(s, small)
}
fn large_l(s: &mut Src) -> Res {
    each_field!(s, large)
}
fn circuits_l(s: &mut Src) -> Res {
    each_pair!(s, circuits)
}

fn main() {
    Suite::new("W01", "Random lists of copy requests (chains, hubs, repeats, self-copies) over up to 32 gates' routed wires, virtual targets and public inputs, with consistent, singly altered, swapped and random wire values under random challenges; the same over up to 1024 gates with classes of hundreds to thousands of wires; built circuits of random gadget programs with up to 22 public inputs, compared with the closure of the same program's wiring and the extra copies. Non-trivial: a class of three or more (256 or more for the large ones); two or more extra copies.")
        .law("classes, permutation and accumulator match the closure of the copies", 20_000, 800_000, small_l)
        .law("large classes: permutation and accumulator match the closure of the copies", 150, 8_000, large_l)
        .law("built circuits carry exactly the requested wiring", 700, 20_000, circuits_l)
        .run();
}
