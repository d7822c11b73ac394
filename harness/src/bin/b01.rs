//! B01: a circuit's verification key is determined by its description, and commits to all of it.
use plonky::*;
use std::collections::BTreeSet;
use vh::circ::*;
use vh::gen::*;
use vh::proofs::*;
use vh::refs::*;
use vh::*;

const ROUTED: usize = 6;
const CONSTANTS: usize = 6;

fn cbor<T: serde::Serialize>(x: &T) -> Vec<u8> {
    serde_cbor::to_vec(x).expect("keys serialize")
}
/// Copy classes of the routed wires.
fn classes<C: HaloCurve>(c: &Circuit<C>) -> BTreeSet<BTreeSet<(usize, usize)>> {
    let mut all = BTreeSet::new();
    for gate in 0..c.degree() {
        for input in 0..ROUTED {
            let part = c.routing_target_partitions.get_partition(Target::Wire(Wire { gate, input }));
            all.insert(
                part.iter()
                    .filter_map(|t| match t {
                        Target::Wire(w) => Some((w.gate, w.input)),
                        _ => None,
                    })
                    .collect(),
            );
        }
    }
    all
}
fn committed<C: CurveRef>(g: &[Pt<C>], v: &[C::ScalarField]) -> Pt<C>
where
    C::ScalarField: FieldRef,
{
    g.iter().zip(v).filter(|(_, &x)| x != C::ScalarField::ZERO).fold(None, |a, (&g, &x)| ref_add::<C>(a, ref_mul_scalar::<C>(g, x)))
}
/// The coefficients of the polynomial with these values on the powers of `g`.
fn interpolated<F: FieldRef>(values: &[F], g: F) -> Vec<F> {
    let n = values.len();
    let scale = F::from_canonical_usize(n).multiplicative_inverse().unwrap();
    let inv = g.multiplicative_inverse().unwrap();
    (0..n)
        .map(|k| {
            let step = inv.exp_usize(k);
            values.iter().fold((F::ZERO, F::ONE), |(a, x), &v| (a + v * x, x * step)).0 * scale
        })
        .collect()
}

/// The key holds commitments to exactly the circuit's constants and permutation.
fn key<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + serde::Serialize,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    type F<C> = <C as Curve>::ScalarField;
    let bits = *s.pick(&[128, 128, 100, 80, 160]);
    let (steps, publics) = (s.size(0, 6), s.size(0, 4));
    let i = instance::<C, I>(s, Size { steps, publics, gadgets: false, bits });
    let c = &i.c;
    let n = c.degree();
    if n >= 8 {
        s.nontrivial();
    }
    ensure!(n.is_power_of_two() && 1 << c.degree_pow() == n, "{} gates, power {}", n, c.degree_pow());
    let (g, g8) = (c.subgroup_generator_n, c.subgroup_generator_8n);
    for (k, &(g, sub)) in [(g, &c.subgroup_n), (g8, &c.subgroup_8n)].iter().enumerate() {
        let m = n << (3 * k);
        ensure!(sub.len() == m && g.exp_usize(m) == F::<C>::ONE && (m == 1 || g.exp_usize(m / 2) != F::<C>::ONE), "generator of the subgroup of order {}", m);
        let at = s.upto(m);
        ensure!(sub[at] == g.exp_usize(at), "element {} of the subgroup of order {}", at, m);
    }
    ensure!(g8.exp_usize(8) == g, "the subgroups are not nested");
    ensure!(c.pedersen_g.len() == n, "{} commitment generators for {} gates", c.pedersen_g.len(), n);
    let mut gens = c.pedersen_g.clone();
    gens.extend(&[c.pedersen_h, c.u]);
    let fresh: Vec<AffinePoint<C>> = (0..n + 2).map(blake_hash_usize_to_curve::<C>).collect();
    ensure!(gens == fresh, "the commitment generators are not the hashes of 0 to {}", n + 1);
    // with the reference: one column of each kind, and all when small
    let points: Vec<Pt<C>> = gens[..n].iter().map(pt).collect();
    let vk = c.to_vk();
    ensure!(vk.c_constants.len() == CONSTANTS && vk.c_s_sigmas.len() == ROUTED, "{} and {} commitments in the key", vk.c_constants.len(), vk.c_s_sigmas.len());
    let (a, b) = (s.upto(CONSTANTS), s.upto(ROUTED));
    for j in 0..CONSTANTS {
        if j == a || n <= 4 {
            let column: Vec<F<C>> = c.gate_constants.iter().map(|r| r.get(j).cloned().unwrap_or(F::<C>::ZERO)).collect();
            let want = committed::<C>(&points, &interpolated(&column, g));
            ensure!(pt(&vk.c_constants[j]) == want && pt(&c.c_constants[j].to_affine()) == want, "the key's commitment to constants {} is not the circuit's", j);
        }
    }
    for j in 0..ROUTED {
        if j == b || n <= 4 {
            let column: Vec<F<C>> = c.s_sigma_values_8n[j].iter().step_by(8).cloned().collect();
            let want = committed::<C>(&points, &interpolated(&column, g));
            ensure!(pt(&vk.c_s_sigmas[j]) == want && pt(&c.c_s_sigmas[j].to_affine()) == want, "the key's commitment to permutation {} is not the circuit's", j);
        }
    }
    ensure!(c.c_constants.iter().chain(&c.c_s_sigmas).all(|x| x.randomness == F::<C>::ZERO), "the circuit's commitments are blinded");
    ensure!(
        (vk.degree, vk.num_public_inputs, vk.num_gates_without_pis, vk.security_bits) == (n, i.pis.len(), c.num_gates_without_pis, bits),
        "the key says {} gates, {} public inputs after {}, {} bits",
        vk.degree,
        vk.num_public_inputs,
        vk.num_gates_without_pis,
        vk.security_bits
    );
    ensure!(c.get_public_inputs(&i.w) == i.pis, "public inputs read back as {}, not {}", shows(&c.get_public_inputs(&i.w)), shows(&i.pis));
    // the precomputations are for these generators and this size
    let v: Vec<F<C>> = (0..n).map(|_| if s.chance(1, 2) { uniform(s) } else { F::<C>::ZERO }).collect();
    let want = v.iter().zip(&gens).fold(ProjectivePoint::<C>::ZERO, |acc, (&x, g)| acc + C::convert(x) * g.to_projective());
    let pre = vk.pedersen_g_msm_precomputation.as_ref().ok_or("no precomputation for products")?;
    ensure!(msm_execute_parallel(pre, &v).to_affine() == want.to_affine(), "the key's precomputation is for other generators");
    let fft = vk.fft_precomputation.as_ref().ok_or("no precomputation for transforms")?;
    ensure!(fft.size() == n && ifft_with_precomputation_power_of_2(&v, fft) == interpolated(&v, g), "the key's precomputation is for other transforms");
    let (mut x, mut y, mut z) = (vk.clone(), vk.clone(), vk.clone());
    x.clear_msm_precomputation();
    y.clear_fft_precomputation();
    z.clear_all();
    ensure!(x.pedersen_g_msm_precomputation.is_none() && cbor(&x.fft_precomputation) == cbor(&vk.fft_precomputation), "clearing one precomputation");
    ensure!(y.fft_precomputation.is_none() && cbor(&y.pedersen_g_msm_precomputation) == cbor(&vk.pedersen_g_msm_precomputation), "clearing one precomputation");
    ensure!(z.fft_precomputation.is_none() && z.pedersen_g_msm_precomputation.is_none(), "clearing all precomputations");
    for w in &[x, y, z] {
        ensure!(
            w.c_constants == vk.c_constants && w.c_s_sigmas == vk.c_s_sigmas && (w.degree, w.num_public_inputs, w.num_gates_without_pis, w.security_bits) == (vk.degree, vk.num_public_inputs, vk.num_gates_without_pis, vk.security_bits),
            "clearing precomputations changes the key"
        );
    }
    Ok(())
}

struct Plan<F: Field> {
    ops: Vec<Op<F>>,
    copies: Vec<(usize, usize)>,
    empty: usize,
}
fn built<C: HaloCurve>(p: &Plan<C::ScalarField>) -> (Circuit<C>, Vec<Target<C::ScalarField>>)
where
    C::ScalarField: FieldRef,
{
    let mut b = CircuitBuilder::<C>::new(128);
    let t = emit(&mut b, &p.ops);
    for &(i, j) in &p.copies {
        b.copy(t[i], t[j]);
    }
    for _ in 0..p.empty {
        let gate = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(gate));
    }
    (b.build(), t)
}
/// Two parties build the same circuit on their own: one proves, the other verifies.
fn parties<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + serde::Serialize,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let shape = Shape { steps: s.size(0, 14), publics: s.size(0, 11), virtuals: s.size(0, 4), logic: s.bool(), max_exp: 16 };
    let (ops, mut pis, vts) = program::<C::ScalarField>(s, shape);
    pis.iter_mut().for_each(|x| {
        if !fits::<C>(*x) {
            *x = C::ScalarField::ONE;
        }
    });
    let mut ops = ops;
    let values = loop {
        match run(&ops, &pis, &vts) {
            Some(v) => break v,
            None => {
                ops.pop();
            }
        }
    };
    let mut copies = vec![];
    for i in 0..ops.len() {
        for j in 0..i {
            if values[i] == values[j] && s.chance(1, 3) {
                copies.push(if s.bool() { (i, j) } else { (j, i) });
            }
        }
    }
    let p = Plan { ops, copies, empty: s.size(0, 9) };
    s.note(|| format!("{:?} on public {} virtual {}; copies {:?}", p.ops, shows(&pis), shows(&vts), p.copies));
    let (a, t) = built::<C>(&p);
    // something else in between, in this thread and in others
    let _ = instance::<C, I>(s, SMALL);
    let (b, u) = if s.bool() {
        built::<C>(&p)
    } else {
        let other = std::thread::spawn(|| {
            built::<C>(&Plan { ops: vec![], copies: vec![], empty: 2 });
        });
        let x = built::<C>(&p);
        let _ = other.join();
        x
    };
    ensure!(t == u, "the same program has other targets");
    ensure!(a.gate_constants == b.gate_constants, "the same program has other gates");
    ensure!(classes(&a) == classes(&b), "the same program has other wiring");
    let (va, vb) = (a.to_vk(), b.to_vk());
    ensure!(cbor(&va) == cbor(&vb), "the same program has another key");
    let publics: Vec<C::ScalarField> = p.ops.iter().filter_map(|o| if let Op::Public(i) = o { Some(pis[*i]) } else { None }).collect();
    let w = a.generate_witness(assign(&p.ops, &t, &pis, &vts));
    let w2 = b.generate_witness(assign(&p.ops, &u, &pis, &vts));
    // all but the three rows of random values
    for i in (0..a.degree()).filter(|&i| i + 3 < a.num_gates_without_pis || i >= a.num_gates_without_pis) {
        ensure!(wire_row(&w, i) == wire_row(&w2, i), "row {} of the same program's witness differs", i);
    }
    if let Some(m) = violation::<C, I>(&b, &w) {
        return Err(format!("the witness of the one does not satisfy the other: {}", m));
    }
    if s.chance(1, 3) && a.degree() <= 64 {
        s.class("proved");
        let proof = a.generate_proof::<I>(&w, &[], s.bool()).map_err(|e| e.to_string())?;
        let r = verify_proof::<C, I>(&publics, &proof, &[], &vb, s.chance(1, 3));
        ensure!(r.is_ok(), "a proof is rejected by the other party: {:?}", r.err());
    }
    if p.ops.len() > 2 {
        s.nontrivial();
    }
    Ok(())
}
/// Neighbouring programs have the same key exactly if they describe the same circuit.
fn neighbours<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef + serde::Serialize,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let shape = Shape { steps: s.size(1, 12), publics: s.size(0, 10), virtuals: s.size(1, 4), logic: s.bool(), max_exp: 16 };
    let (ops, _, _) = program::<C::ScalarField>(s, shape);
    let m = ops.len();
    let copies: Vec<(usize, usize)> = (0..s.size(0, 4)).map(|_| (s.upto(m), s.upto(m))).collect();
    let p = Plan { ops, copies, empty: s.size(0, 5) };
    let mut q = Plan { ops: p.ops.clone(), copies: p.copies.clone(), empty: p.empty };
    let at = s.upto(m);
    let x = s.upto(at.max(1));
    let what = match s.upto(6) {
        0 => {
            q.copies.push((s.upto(m), s.upto(m)));
            "one more copy"
        }
        1 => {
            q.copies.pop();
            "one copy less"
        }
        2 => {
            q.empty += 1;
            "one more empty gate"
        }
        3 => {
            q.ops[at] = match q.ops[at].clone() {
                Op::Const(c) => Op::Const(c + if s.bool() { C::ScalarField::ONE } else { uniform(s) }),
                Op::ConstU32(c) => Op::ConstU32(c ^ (1 << s.upto(32))),
                Op::ExpUsize(y, e) => Op::ExpUsize(y, e + 1),
                Op::Add(y, z) => Op::Sub(y, z),
                Op::Sub(y, z) => Op::Sub(z, y),
                Op::Mul(y, z) => Op::Add(y, z),
                Op::MulAdd(y, z, w) => Op::MulSub(y, z, w),
                Op::Double(y) => Op::Square(y),
                Op::Inv(y) => Op::Neg(y),
                o => o,
            };
            "one operation"
        }
        4 => {
            q.ops[at] = match q.ops[at].clone() {
                Op::Add(_, z) => Op::Add(x, z),
                Op::Sub(_, z) => Op::Sub(x, z),
                Op::Mul(y, _) => Op::Mul(y, x),
                Op::MulAdd(y, z, _) => Op::MulAdd(y, z, x),
                Op::Neg(_) => Op::Neg(x),
                Op::Square(_) => Op::Square(x),
                Op::Double(_) => Op::Double(x),
                Op::Inv(_) => Op::Inv(x),
                o => o,
            };
            "one operand"
        }
        _ => "nothing",
    };
    let (a, b) = (built::<C>(&p).0, built::<C>(&q).0);
    let (mut va, mut vb) = (a.to_vk(), b.to_vk());
    va.clear_all();
    vb.clear_all();
    s.note(|| format!("{} of {:?}, copies {:?}: {:?}, copies {:?}", what, p.ops, p.copies, q.ops, q.copies));
    let same = a.gate_constants == b.gate_constants && classes(&a) == classes(&b) && (a.num_public_inputs, a.num_gates_without_pis) == (b.num_public_inputs, b.num_gates_without_pis);
    if !same {
        s.nontrivial();
        s.class("another circuit");
        ensure!(cbor(&va) != cbor(&vb), "circuits that differ ({}) have the same key", what);
        if a.degree() == b.degree() && a.gate_constants != b.gate_constants {
            ensure!(va.c_constants != vb.c_constants, "other constants ({}) with the same commitments", what);
        }
        if a.degree() == b.degree() && classes(&a) != classes(&b) {
            ensure!(va.c_s_sigmas != vb.c_s_sigmas, "other wiring ({}) with the same commitments", what);
        }
    } else {
        s.class("the same circuit");
        ensure!(va.c_constants == vb.c_constants, "the same constants ({}) with other commitments", what);
        if what == "nothing" {
            ensure!(cbor(&va) == cbor(&vb), "the same program has another key");
        }
    }
    Ok(())
}
/// What a process says of a program of its own choosing: its key, hashes, and a proof.
fn report<C, I>(seed: u64, prove: bool) -> (Vec<u8>, Vec<u8>, VerificationKey<C>, Vec<C::ScalarField>)
where
    C: HaloCurve + CurveRef + serde::Serialize,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let s = &mut Src::seeded(seed);
    let (steps, publics) = (s.size(0, 4), s.size(0, 10));
    let i = instance::<C, I>(s, Size { steps, publics, gadgets: false, bits: 128 });
    let vk = i.c.to_vk();
    let mut said = cbor(&vk);
    let w = 1 + s.upto(8);
    let x = many::<C::ScalarField>(s, w);
    said.extend(cbor(&rescue_permutation(&x, 128)));
    said.extend(cbor(&rescue_sponge(x, 4, 128)));
    said.extend(cbor(&hash_usize_to_curve::<C>(s.upto(1000), 128)));
    said.extend(cbor(&blake_hash_usize_to_curve::<C>(s.upto(1000))));
    let proof = if prove { cbor(&i.c.generate_proof::<I>(&i.w, &[], true).expect("an honest proof")) } else { vec![] };
    (said, proof, vk, i.pis)
}
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
fn say<C, I>(seed: u64, prove: bool)
where
    C: HaloCurve + CurveRef + serde::Serialize,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let (a, b, _, _) = report::<C, I>(seed, prove);
    println!("{} {}", blake3::hash(&a).to_hex(), hex(&b));
}
/// The child: programs over the listed curve pairs, in order.
fn child(spec: &str) {
    let mut it = spec.split(' ');
    let seed: u64 = it.next().unwrap().parse().unwrap();
    let prove = it.next().unwrap() == "prove";
    for k in it {
        let k: u64 = k.parse().unwrap();
        match k {
            0 => say::<Tweedledee, Tweedledum>(seed + k, prove),
            1 => say::<Tweedledum, Tweedledee>(seed + k, prove),
            2 => say::<Pallas, Vesta>(seed + k, prove),
            _ => say::<Vesta, Pallas>(seed + k, prove),
        }
    }
}
fn ask(seed: u64, prove: bool, order: &[u64]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let order: Vec<String> = order.iter().map(|k| k.to_string()).collect();
    let spec = format!("{} {} {}", seed, if prove { "prove" } else { "key" }, order.join(" "));
    let out = std::process::Command::new(me).env("VH_B01", &spec).output().map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "building {} in a process of its own: {}", spec, String::from_utf8_lossy(&out.stderr).lines().take(3).collect::<Vec<_>>().join(" "));
    Ok(String::from_utf8_lossy(&out.stdout)
        .lines()
        .map(|l| {
            let mut it = l.split(' ');
            let h = it.next().unwrap_or("").to_string();
            let p = it.next().unwrap_or("");
            (h, (0..p.len() / 2).map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).unwrap_or(0)).collect())
        })
        .collect())
}
/// Processes with different histories agree on keys and hashes, and accept each other's proofs.
fn processes(s: &mut Src) -> Res {
    let seed = s.below(1 << 40);
    let prove = s.chance(1, 3);
    let mut order: Vec<u64> = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = s.upto(i + 1);
        order.swap(i, j);
    }
    order.truncate(s.range(1, 4));
    // this one builds the last of them first
    let last = order[order.len() - 1];
    s.note(|| format!("program {} over pairs {:?}, and over {} alone", seed, order, last));
    if order.len() > 1 {
        s.nontrivial();
    }
    let a = ask(seed, prove, &order)?;
    let b = ask(seed, false, &[last])?;
    ensure!(a.len() == order.len() && b.len() == 1, "processes answered {} and {} times", a.len(), b.len());
    ensure!(a[a.len() - 1].0 == b[0].0, "the key or hashes of a program depend on what the process did before");
    fn here<C, I>(seed: u64, (said, proof): &(String, Vec<u8>)) -> Res
    where
        C: HaloCurve + CurveRef + serde::Serialize + serde::de::DeserializeOwned,
        I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
        C::ScalarField: FieldRef,
        C::BaseField: FieldRef,
    {
        let (a, _, vk, pis) = report::<C, I>(seed, false);
        ensure!(&blake3::hash(&a).to_hex()[..] == said, "another process has another key or other hashes for the same program");
        if !proof.is_empty() {
            let p: Proof<C> = serde_cbor::from_slice(proof).map_err(|e| e.to_string())?;
            let r = verify_proof::<C, I>(&pis, &p, &[], &vk, true);
            ensure!(r.is_ok(), "another process's proof is rejected: {:?}", r.err());
        }
        Ok(())
    }
    for (&k, x) in order.iter().zip(&a) {
        match k {
            0 => here::<Tweedledee, Tweedledum>(seed + k, x)?,
            1 => here::<Tweedledum, Tweedledee>(seed + k, x)?,
            2 => here::<Pallas, Vesta>(seed + k, x)?,
            _ => here::<Vesta, Pallas>(seed + k, x)?,
        }
    }
    Ok(())
}
fn key_l(s: &mut Src) -> Res {
    each_pair!(s, key)
}
fn parties_l(s: &mut Src) -> Res {
    each_pair!(s, parties)
}
fn neighbours_l(s: &mut Src) -> Res {
    each_pair!(s, neighbours)
}

fn main() {
    if let Ok(spec) = std::env::var("VH_B01") {
        return child(&spec);
    }
    Suite::new("B01", "Random provable circuits (4 to 64 rows, up to 16 public inputs, several security levels) whose keys are recomputed from their rows and wiring; random programs built twice, with other circuits built in between and at the same time, proved with the one and verified with the other; programs built in several processes with different histories; pairs of programs that differ in one constant, operation, operand, copy or empty gate. Non-trivial: 8 rows or more; three or more steps; more than one program in a process; pairs that describe different circuits.")
        .assume("the generators of commitments are what hashing the indices gives (C06)")
        .law("keys commit to the circuit's description", 80, 3000, key_l)
        .law("independent builds agree", 200, 6000, parties_l)
        .law("keys differ exactly as circuits do", 250, 9000, neighbours_l)
        .law("processes agree", 60, 1500, processes)
        .run();
}
