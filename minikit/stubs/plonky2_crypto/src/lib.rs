//! A stand-in for the hash gadgets of plonky2_crypto.
pub mod u32 { pub mod arithmetic_u32 { #[derive(Copy, Clone, Debug)] pub struct U32Target(pub plonky2::iop::target::Target); } }
pub mod biguint { use super::u32::arithmetic_u32::U32Target; #[derive(Clone, Debug)] pub struct BigUintTarget { pub limbs: Vec<U32Target> } }
pub mod hash {
    use plonky2::field::extension::Extendable;
    use plonky2::hash::hash_types::RichField;
    use plonky2::iop::target::{BoolTarget, Target};
    use plonky2::iop::witness::WitnessWrite;
    use plonky2::plonk::circuit_builder::CircuitBuilder;
    use super::biguint::BigUintTarget;
    use super::u32::arithmetic_u32::U32Target;
    #[derive(Clone, Debug)]
    pub struct HashInputTarget { pub input: BigUintTarget, pub input_bits: usize, pub blocks: Vec<BoolTarget> }
    pub type HashOutputTarget = BigUintTarget;
    pub trait CircuitBuilderHash { fn add_virtual_hash_input_target(&mut self, blocks: usize, bits: usize) -> HashInputTarget; }
    impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilderHash for CircuitBuilder<F, D> {
        fn add_virtual_hash_input_target(&mut self, blocks: usize, bits: usize) -> HashInputTarget {
            HashInputTarget { input: BigUintTarget { limbs: self.add_virtual_targets(blocks * bits / 32).into_iter().map(U32Target).collect() }, input_bits: blocks * bits,
                blocks: (0..blocks).map(|_| self.add_virtual_bool_target_safe()).collect() }
        }
    }
    fn gadget<F: RichField + Extendable<D>, const D: usize>(b: &mut CircuitBuilder<F, D>, f: fn(&[u64]) -> Vec<u64>, i: &HashInputTarget, bits: usize) -> BigUintTarget {
        assert_eq!((i.blocks.len(), i.input_bits), (1, bits), "one block");
        let is: Vec<Target> = i.input.limbs.iter().map(|l| l.0).collect();
        for t in &is { b.range_check(*t, 32); }
        BigUintTarget { limbs: b.native(f, is, 8).into_iter().map(U32Target).collect() }
    }
    fn set<F: RichField>(w: &mut impl WitnessWrite<F>, t: &[U32Target], v: &[u64]) { assert_eq!(t.len(), v.len()); for (t, v) in t.iter().zip(v) { w.set_target(t.0, F::from_canonical_u64(*v)); } }
    pub mod sha256 {
        use super::*;
        pub trait CircuitBuilderHashSha2 { fn hash_sha256(&mut self, i: &HashInputTarget) -> HashOutputTarget; }
        impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilderHashSha2 for CircuitBuilder<F, D> { fn hash_sha256(&mut self, i: &HashInputTarget) -> HashOutputTarget { gadget(self, sha2::compress, i, 512) } }
        pub trait WitnessHashSha2<F: RichField> { fn set_sha256_input_target(&mut self, t: &HashInputTarget, v: &[u8]); fn set_sha256_output_target(&mut self, t: &HashOutputTarget, v: &[u8]); }
        impl<F: RichField, T: WitnessWrite<F>> WitnessHashSha2<F> for T {
            fn set_sha256_input_target(&mut self, t: &HashInputTarget, v: &[u8]) { set(self, &t.input.limbs, &sha2::pad(v)); self.set_bool_target(t.blocks[0], true); }
            fn set_sha256_output_target(&mut self, t: &HashOutputTarget, v: &[u8]) { let w: Vec<u64> = v.chunks(4).map(|c| u64::from(u32::from_be_bytes(c.try_into().unwrap()))).collect(); set(self, &t.limbs, &w); }
        }
    }
    pub mod keccak256 {
        use super::*;
        pub const KECCAK256_R: usize = 1088;
        pub trait CircuitBuilderHashKeccak { fn hash_keccak256(&mut self, i: &HashInputTarget) -> HashOutputTarget; }
        impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilderHashKeccak for CircuitBuilder<F, D> { fn hash_keccak256(&mut self, i: &HashInputTarget) -> HashOutputTarget { gadget(self, sha3::absorb, i, 1088) } }
        pub trait WitnessHashKeccak<F: RichField> { fn set_keccak256_input_target(&mut self, t: &HashInputTarget, v: &[u8]); fn set_keccak256_output_target(&mut self, t: &HashOutputTarget, v: &[u8]); }
        impl<F: RichField, T: WitnessWrite<F>> WitnessHashKeccak<F> for T {
            fn set_keccak256_input_target(&mut self, t: &HashInputTarget, v: &[u8]) { set(self, &t.input.limbs, &sha3::pad(v)); self.set_bool_target(t.blocks[0], true); }
            fn set_keccak256_output_target(&mut self, t: &HashOutputTarget, v: &[u8]) { let w: Vec<u64> = v.chunks(4).map(|c| u64::from(u32::from_le_bytes(c.try_into().unwrap()))).collect(); set(self, &t.limbs, &w); }
        }
    }
}
