
#[cfg(test)]
mod vp_finding_groth16 {
    use super::*;
    use ark_bls12_381::{Bls12_381, Fr, G1Projective as G1, G2Projective as G2};
    use ark_ec::{CurveGroup, Group};
    use ark_ff::{UniformRand, Field};
    use ark_std::rand::{rngs::StdRng, SeedableRng};
    use blake2::Blake2b;

    /// the aggregate of two valid proofs also verifies for two public inputs that have no proof
    #[test]
    fn shifted_inputs() {
        let mut rng = StdRng::seed_from_u64(1);
        let mut s = || Fr::rand(&mut rng);
        let (al, be, ga, de, i0, i1) = (s(), s(), s(), s(), s(), s());
        let x = [s(), s()];
        let mut proofs = vec![];
        for xi in x.iter() {
            let (a, b) = (s(), s());
            let c = (a * b - al * be - ga * (i0 + i1 * xi)) * de.inverse().unwrap();
            proofs.push(Proof::<Bls12_381> { a: (G1::generator() * a).into_affine(), b: (G2::generator() * b).into_affine(), c: (G1::generator() * c).into_affine() });
        }
        let vk = VerifyingKey::<Bls12_381> {
            alpha_g1: (G1::generator() * al).into_affine(), beta_g2: (G2::generator() * be).into_affine(),
            gamma_g2: (G2::generator() * ga).into_affine(), delta_g2: (G2::generator() * de).into_affine(),
            gamma_abc_g1: vec![(G1::generator() * i0).into_affine(), (G1::generator() * i1).into_affine()],
        };
        let srs = setup_inner_product::<Bls12_381, Blake2b, _>(&mut rng, 2).unwrap();
        let pf = aggregate_proofs::<Bls12_381, Blake2b>(&srs, &proofs).unwrap();
        let v = |p: &[Fr; 2]| verify_aggregate_proof(&srs.get_verifier_key(), &vk, &vec![vec![p[0]], vec![p[1]]], &pf).unwrap();
        assert!(v(&x));
        // r is known once the proofs are committed to; move d from one input to the other
        let mut h = Vec::new();
        h.extend_from_slice(&0usize.to_be_bytes()[..]);
        pf.com_a.serialize_uncompressed(&mut h).unwrap();
        pf.com_b.serialize_uncompressed(&mut h).unwrap();
        pf.com_c.serialize_uncompressed(&mut h).unwrap();
        let r = Fr::from_random_bytes(&Blake2b::digest(&h)).unwrap();
        let d = Fr::rand(&mut rng);
        assert!(v(&[x[0] + d, x[1] - d * r.inverse().unwrap()]));
        println!("FORGED: verification accepts public inputs that were never proven");
    }
}
