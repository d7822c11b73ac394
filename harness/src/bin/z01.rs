//! Z01: honest proofs verify.
use plonky::plonk_util::{halo_s, pedersen_hash};
use plonky::*;
use vh::proofs::*;
use vh::refs::*;
use vh::*;

fn check<C, I>(s: &mut Src, size: Size) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let i = instance::<C, I>(s, size);
    let blinding = s.bool();
    s.class(if blinding { "blinded" } else { "not blinded" });
    let got = i.c.get_public_inputs(&i.w);
    ensure!(got == i.pis, "public inputs of the witness are {}, expected {}", gen::shows(&got), gen::shows(&i.pis));
    let proof = match i.c.generate_proof::<I>(&i.w, &[], blinding) {
        Ok(p) => p,
        Err(e) => return Err(format!("no proof: {}", e)),
    };
    if i.pis.len() > 0 && i.c.degree() > 16 {
        s.nontrivial();
    }
    if i.pis.len() > 9 {
        s.class("several public input gates");
    }
    let vk = |s: &mut Src| {
        let mut vk = i.c.to_vk();
        match s.upto(4) {
            0 => {}
            1 => vk.clear_msm_precomputation(),
            2 => vk.clear_fft_precomputation(),
            _ => vk.clear_all(),
        }
        vk
    };
    match verify_proof::<C, I>(&i.pis, &proof, &[], &vk(s), true) {
        Ok(None) => {}
        Ok(Some(_)) => return Err("complete verification returned pending work".into()),
        Err(e) => return Err(format!("honest proof rejected: {}", e)),
    }
    match verify_proof::<C, I>(&i.pis, &proof, &[], &vk(s), false) {
        Ok(Some(o)) => {
            ensure!(o.halo_g == proof.halo_g, "pending folded generator differs from the proof's");
            ensure!(1 << o.halo_us.len() == i.c.degree(), "{} pending challenges for {} rows", o.halo_us.len(), i.c.degree());
            let g = pedersen_hash::<C>(&halo_s(&o.halo_us), &i.c.pedersen_g_msm_precomputation).to_affine();
            ensure!(g == o.halo_g, "pending folded generator is not the folding of the generators");
        }
        Ok(None) => return Err("deferred verification returned nothing to defer".into()),
        Err(e) => return Err(format!("honest proof rejected with the linear-time check deferred: {}", e)),
    }
    Ok(())
}
fn honest<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let gadgets = s.bool();
    check::<C, I>(s, Size { steps: 30, publics: 20, gadgets, bits: 128 })
}
fn levels<C, I>(s: &mut Src) -> Res
where
    C: HaloCurve + CurveRef,
    I: HaloCurve + CurveRef + Curve<BaseField = C::ScalarField>,
    C::ScalarField: FieldRef,
    C::BaseField: FieldRef,
{
    let bits = 2 * s.range(40, 100);
    s.note(|| format!("security {}", bits));
    check::<C, I>(s, Size { steps: 8, publics: 4, gadgets: false, bits })
}
fn honest_l(s: &mut Src) -> Res {
    each_pair!(s, honest)
}
fn levels_l(s: &mut Src) -> Res {
    each_pair!(s, levels)
}
fn main() {
    Suite::new("Z01", "Random circuits of up to 30 gadgets plus hashes, curve operations, big integers, square roots, digit checks and scalar multiplications, up to 40 public inputs, padded to random sizes (4 to 2048 rows), on all curve pairs, blinded or not, verified completely and deferred, with and without precomputations; small circuits at other security levels. Non-trivial: public inputs and more than 16 rows.")
        .assume("public inputs fit both fields; opened values fit both fields (the prover refuses otherwise; a chance below 2^-120 per value)")
        .law("honest proofs verify", 180, 4000, honest_l)
        .law("honest proofs verify at every security level", 40, 800, levels_l)
        .run();
}
