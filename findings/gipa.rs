
#[cfg(test)]
mod vp_finding_gipa {
    use super::*;
    use ark_bls12_381::{Bls12_381, Fr};
    use ark_ff::UniformRand;
    use ark_std::rand::{rngs::StdRng, SeedableRng};
    use ark_dh_commitments::pedersen::PedersenCommitment;
    use ark_inner_products::ScalarInnerProduct;
    use blake2::Blake2b;
    type G1 = <Bls12_381 as ark_ec::pairing::Pairing>::G1;
    type Com = PedersenCommitment<G1>;
    type Gp = GIPA<ScalarInnerProduct<Fr>, Com, Com, Com, Blake2b>;
    type Pf = GIPAProof<ScalarInnerProduct<Fr>, Com, Com, Com, Blake2b>;

    /// com_a, com_b are honest commitments to a, b; com_t commits to <a,b> + delta; the proof is accepted all the same
    #[test]
    fn forged() {
        let mut rng = StdRng::seed_from_u64(1);
        let (cka, ckb, ckt) = Gp::setup(&mut rng, 2).unwrap();
        let a: Vec<Fr> = (0..2).map(|_| Fr::rand(&mut rng)).collect();
        let b: Vec<Fr> = (0..2).map(|_| Fr::rand(&mut rng)).collect();
        let ca = Com::commit(&cka, &a).unwrap();
        let cb = Com::commit(&ckb, &b).unwrap();
        let t = ScalarInnerProduct::inner_product(&a, &b).unwrap();
        let true_ct = Com::commit(&vec![ckt.clone()], &vec![t]).unwrap();
        let mut pf: Pf = Gp::prove((&a, &b, &t), (&cka, &ckb, &ckt), (&ca, &cb, &true_ct)).unwrap();
        // tamper with one cross term of the inner product: the challenge changes, the final messages are recomputed for it
        let shift = G1::rand(&mut rng);
        (pf.r_commitment_steps[0].0).2 += shift;
        let (_, ch) = Gp::verify_recursive_challenge_transcript((&ca, &cb, &true_ct), &pf).unwrap();
        let (c, ci) = (ch[0], ch[0].inverse().unwrap());
        let (s1, s2) = (pf.r_commitment_steps[0].0 .2, pf.r_commitment_steps[0].1 .2);
        // (a is folded as a_0 + c a_1 or c a_0 + a_1, b with the inverse: try both conventions)
        for (x, y) in [(c, ci), (ci, c)] {
            for lo in [0usize, 1] {
                let (fa, fb) = (a[lo] + a[1 - lo] * x, b[lo] + b[1 - lo] * y);
                pf.r_base = (fa, fb);
                // the commitment that the folded equation asks for is solved for after the challenge is known
                let forged = ckt * (fa * fb) - s1 * c - s2 * ci;
                if Gp::verify((&cka, &ckb, &ckt), (&ca, &cb, &forged), &pf).unwrap_or(false) {
                    assert_ne!(forged, true_ct, "the statement is false");
                    println!("FORGED: verification accepts a commitment that is not to the inner product");
                    return;
                }
            }
        }
        panic!("the forgery is rejected");
    }
}
