//! A stand-in for the parts of plonky2 that recursive circuits are written with: circuits are lists of checked operations,
//! proofs carry a seal over the circuit's digest and their public inputs that only proving and nothing else here makes.
pub mod field {
    pub mod types {
        pub trait Field: serde::Serialize + serde::de::DeserializeOwned + Copy + Clone + std::fmt::Debug + Default + PartialEq + Eq + Send + Sync + 'static + std::iter::Sum
            + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self>
            + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::fmt::Display + std::hash::Hash {
            const ZERO: Self;
            const ONE: Self;
            const TWO: Self;
            const NEG_ONE: Self;
            fn from_noncanonical_u64(n: u64) -> Self;
            fn to_u64(&self) -> u64;
            fn from_canonical_u64(n: u64) -> Self { Self::from_noncanonical_u64(n) }
            fn from_canonical_u32(n: u32) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_u16(n: u16) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_u8(n: u8) -> Self { Self::from_noncanonical_u64(u64::from(n)) }
            fn from_canonical_usize(n: usize) -> Self { Self::from_noncanonical_u64(n as u64) }
            fn from_noncanonical_i64(n: i64) -> Self { if n < 0 { -Self::from_noncanonical_u64(n.unsigned_abs()) } else { Self::from_noncanonical_u64(n as u64) } }
            fn from_bool(b: bool) -> Self { Self::from_noncanonical_u64(u64::from(b)) }
            fn is_one(&self) -> bool { *self == Self::ONE }
            fn is_zero(&self) -> bool { *self == Self::ZERO }
            fn is_nonzero(&self) -> bool { *self != Self::ZERO }
            fn sub_one(&self) -> Self { *self - Self::ONE }
            fn add_one(&self) -> Self { *self + Self::ONE }
            fn double(&self) -> Self { *self + *self }
            fn square(&self) -> Self { *self * *self }
            fn exp_u64(&self, mut e: u64) -> Self { let mut b = *self; let mut r = Self::ONE; while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; } r }
            fn try_inverse(&self) -> Option<Self> { if self.is_zero() { None } else { Some(self.exp_u64(0xFFFF_FFFF_0000_0001 - 2)) } }
            fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
        }
        pub trait Sample: Sized { fn rand() -> Self; }
        impl Sample for super::goldilocks_field::GoldilocksField { fn rand() -> Self { Self(0x0123_4567_89AB_CDEF) } }
        pub trait PrimeField64: Field { fn to_canonical_u64(&self) -> u64 { self.to_u64() } fn to_noncanonical_u64(&self) -> u64 { self.to_u64() } }
    }
    pub mod extension { pub trait Extendable<const D: usize>: super::types::Field {} impl<const D: usize> Extendable<D> for super::goldilocks_field::GoldilocksField {} }
    pub mod goldilocks_field {
        use super::types::{Field, PrimeField64};
        pub const P: u64 = 0xFFFF_FFFF_0000_0001;
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct GoldilocksField(pub u64);
        impl std::fmt::Display for GoldilocksField { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
        impl std::ops::Add for GoldilocksField { type Output = Self; fn add(self, o: Self) -> Self { Self(((u128::from(self.0) + u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Sub for GoldilocksField { type Output = Self; fn sub(self, o: Self) -> Self { Self(((u128::from(self.0) + u128::from(P) - u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Mul for GoldilocksField { type Output = Self; fn mul(self, o: Self) -> Self { Self(((u128::from(self.0) * u128::from(o.0)) % u128::from(P)) as u64) } }
        impl std::ops::Neg for GoldilocksField { type Output = Self; fn neg(self) -> Self { Self(0) - self } }
        impl std::ops::AddAssign for GoldilocksField { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl std::ops::SubAssign for GoldilocksField { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl std::ops::MulAssign for GoldilocksField { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl std::iter::Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(0), |a, b| a + b) } }
        impl std::iter::Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(1), |a, b| a * b) } }
        impl Field for GoldilocksField {
            const ZERO: Self = Self(0);
            const ONE: Self = Self(1);
            const TWO: Self = Self(2);
            const NEG_ONE: Self = Self(P - 1);
            fn from_noncanonical_u64(n: u64) -> Self { Self(n % P) }
            fn to_u64(&self) -> u64 { self.0 }
        }
        impl PrimeField64 for GoldilocksField {}
    }
}

pub mod hash {
    pub mod hash_types {
        use crate::iop::target::Target;
        pub const NUM_HASH_OUT_ELTS: usize = 4;
        pub trait RichField: crate::field::types::PrimeField64 {}
        impl RichField for crate::field::goldilocks_field::GoldilocksField {}
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
        #[serde(bound = "")]
        pub struct HashOut<F: crate::field::types::Field> { pub elements: [F; 4] }
        impl<F: crate::field::types::Field> HashOut<F> { pub const ZERO: Self = Self { elements: [F::ZERO; 4] };
            pub fn from_vec(v: Vec<F>) -> Self { Self { elements: v.try_into().unwrap() } } }
        impl<F: crate::field::types::Field> From<[F; 4]> for HashOut<F> { fn from(elements: [F; 4]) -> Self { Self { elements } } }
        impl<F: RichField> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct HashOutTarget { pub elements: [Target; 4] }
        impl From<[Target; 4]> for HashOutTarget { fn from(elements: [Target; 4]) -> Self { Self { elements } } }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
    }
    pub mod hashing {
        pub trait PlonkyPermutation<F>: AsRef<[F]> {
            const RATE: usize;
            const WIDTH: usize;
            fn new<I: IntoIterator<Item = F>>(elts: I) -> Self;
            fn set_elt(&mut self, e: F, i: usize);
            fn set_from_slice(&mut self, e: &[F], start: usize);
            fn permute(&mut self);
            fn squeeze(&self) -> &[F];
        }
    }
    pub mod merkle_tree {
        use super::hash_types::RichField;
        use crate::plonk::config::Hasher;
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
        #[serde(bound = "")]
        pub struct MerkleCap<F: RichField, H: Hasher<F>>(pub Vec<H::Hash>);
        impl<F: RichField, H: Hasher<F>> PartialEq for MerkleCap<F, H> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<F: RichField, H: Hasher<F>> Eq for MerkleCap<F, H> {}
    }
    pub mod poseidon { pub use super::poseidon2::{Poseidon2Hash as PoseidonHash, Poseidon2Permutation as PoseidonPermutation}; }
    pub mod poseidon2 {
        use super::hash_types::{HashOut, RichField};
        use super::hashing::PlonkyPermutation;
        use crate::plonk::config::{AlgebraicHasher, Hasher};
        pub const WIDTH: usize = 12;
        #[derive(Copy, Clone, Debug)]
        pub struct Poseidon2Permutation<F>([F; 12]);
        impl<F> AsRef<[F]> for Poseidon2Permutation<F> { fn as_ref(&self) -> &[F] { &self.0 } }
        impl<F: RichField> PlonkyPermutation<F> for Poseidon2Permutation<F> {
            const RATE: usize = 8;
            const WIDTH: usize = 12;
            fn new<I: IntoIterator<Item = F>>(elts: I) -> Self { let mut s = [F::ZERO; 12]; for (a, b) in s.iter_mut().zip(elts) { *a = b; } Self(s) }
            fn set_elt(&mut self, e: F, i: usize) { self.0[i] = e; }
            fn set_from_slice(&mut self, e: &[F], start: usize) { self.0[start..start + e.len()].copy_from_slice(e); }
            fn permute(&mut self) {
                for r in 0..2u64 {
                    let mut n = [F::ZERO; 12];
                    for i in 0..12 { let mut a = F::from_canonical_u64(r * 131 + i as u64 + 1);
                        for j in 0..12 { a = a + self.0[j] * F::from_canonical_u64(((i * 12 + j + 3) * (i + 7 * j + 5)) as u64); } n[i] = a.exp_u64(7); }
                    self.0 = n;
                }
            }
            fn squeeze(&self) -> &[F] { &self.0[..8] }
        }
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct Poseidon2Hash;
        impl<F: RichField> Hasher<F> for Poseidon2Hash {
            type Hash = HashOut<F>;
            fn hash_no_pad(input: &[F]) -> HashOut<F> {
                let mut p = Poseidon2Permutation::new(std::iter::repeat(F::ZERO));
                for c in input.chunks(8) { p.set_from_slice(c, 0); p.permute(); }
                HashOut { elements: [p.0[0], p.0[1], p.0[2], p.0[3]] }
            }
            fn two_to_one(l: HashOut<F>, r: HashOut<F>) -> HashOut<F> { Self::hash_no_pad(&[l.elements, r.elements].concat()) }
        }
        impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash {}
    }
}
pub mod gates { pub mod noop { #[derive(Copy, Clone, Debug)] pub struct NoopGate; } }
pub mod iop {
    pub mod target {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct Target(pub usize);
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        pub struct BoolTarget { pub target: Target }
        impl BoolTarget { pub fn new_unsafe(target: Target) -> Self { Self { target } } }
    }
    pub mod witness {
        use super::target::{BoolTarget, Target};
        use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
        use crate::hash::merkle_tree::MerkleCap;
        use crate::plonk::circuit_data::{VerifierCircuitTarget, VerifierOnlyCircuitData};
        use crate::plonk::config::{AlgebraicHasher, GenericConfig};
        use crate::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};
        #[derive(Clone, Debug, Default)]
        pub struct PartialWitness<F> { pub target_values: std::collections::BTreeMap<Target, F> }
        impl<F> PartialWitness<F> { pub fn new() -> Self { Self { target_values: Default::default() } } }
        pub trait WitnessWrite<F: RichField> {
            fn set_target(&mut self, t: Target, v: F);
            fn set_target_arr(&mut self, ts: &[Target], vs: &[F]) { assert_eq!(ts.len(), vs.len()); for (t, v) in ts.iter().zip(vs) { self.set_target(*t, *v); } }
            fn set_hash_target(&mut self, t: HashOutTarget, v: HashOut<F>) { self.set_target_arr(&t.elements, &v.elements); }
            fn set_bool_target(&mut self, t: BoolTarget, v: bool) { self.set_target(t.target, F::from_bool(v)); }
            fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, t: &MerkleCapTarget, v: &MerkleCap<F, H>) { assert_eq!(t.0.len(), v.0.len()); for (t, v) in t.0.iter().zip(&v.0) { self.set_hash_target(*t, *v); } }
            fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &VerifierCircuitTarget, v: &VerifierOnlyCircuitData<C, D>) where F: crate::field::extension::Extendable<D>, C::Hasher: AlgebraicHasher<F> {
                self.set_cap_target(&t.constants_sigmas_cap, &v.constants_sigmas_cap); self.set_hash_target(t.circuit_digest, v.circuit_digest); }
            fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &ProofWithPublicInputsTarget<D>, v: &ProofWithPublicInputs<F, C, D>) where F: crate::field::extension::Extendable<D>, C::Hasher: AlgebraicHasher<F> {
                self.set_target_arr(&t.public_inputs, &v.public_inputs); self.set_target_arr(&t.proof.seal, &v.proof.seal); }
        }
        pub trait Witness<F: RichField>: WitnessWrite<F> { fn try_get_target(&self, t: Target) -> Option<F>; fn get_target(&self, t: Target) -> F { self.try_get_target(t).unwrap() } }
        impl<F: RichField> WitnessWrite<F> for PartialWitness<F> { fn set_target(&mut self, t: Target, v: F) { if let Some(o) = self.target_values.insert(t, v) { assert_eq!(o, v, "Target {t:?} was set twice with different values"); } } }
        impl<F: RichField> Witness<F> for PartialWitness<F> { fn try_get_target(&self, t: Target) -> Option<F> { self.target_values.get(&t).copied() } }
    }
}
pub mod fri { #[derive(Clone, Debug, PartialEq, Eq)] pub struct FriConfig { pub cap_height: usize, pub proof_of_work_bits: u32, pub num_query_rounds: usize }
    impl FriConfig { pub fn num_cap_elements(&self) -> usize { 1 << self.cap_height } } }
pub mod plonk {
    pub mod config {
        use crate::field::extension::Extendable;
        use crate::field::goldilocks_field::GoldilocksField;
        use crate::hash::hash_types::{HashOut, RichField};
        pub trait GenericHashOut<F>: Copy + Clone + std::fmt::Debug + PartialEq + Eq + Send + Sync + serde::Serialize + serde::de::DeserializeOwned { fn to_bytes(&self) -> Vec<u8>; fn from_bytes(b: &[u8]) -> Self; fn to_vec(&self) -> Vec<F>; }
        impl<F: RichField> GenericHashOut<F> for HashOut<F> {
            fn to_bytes(&self) -> Vec<u8> { self.elements.iter().flat_map(|e| e.to_u64().to_le_bytes()).collect() }
            fn from_bytes(b: &[u8]) -> Self { let mut e = [F::ZERO; 4]; for (i, c) in b.chunks(8).enumerate() { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); e[i] = F::from_canonical_u64(u64::from_le_bytes(x)); } Self { elements: e } }
            fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
        }
        pub trait Hasher<F: RichField>: Sized + Copy + std::fmt::Debug + Eq + PartialEq + Send + Sync { type Hash: GenericHashOut<F>; fn hash_no_pad(input: &[F]) -> Self::Hash;
            fn hash_or_noop(input: &[F]) -> Self::Hash { if input.len() > 4 { return Self::hash_no_pad(input); } Self::Hash::from_bytes(&input.iter().flat_map(|x| x.to_u64().to_le_bytes()).collect::<Vec<_>>()) }
            fn two_to_one(l: Self::Hash, r: Self::Hash) -> Self::Hash; }
        pub trait AlgebraicHasher<F: RichField>: Hasher<F, Hash = HashOut<F>> {}
        pub trait GenericConfig<const D: usize>: std::fmt::Debug + Clone + Sync + Sized + Send + Eq + PartialEq { type F: RichField + Extendable<D>; type Hasher: Hasher<Self::F>; }
        #[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
        pub struct Poseidon2GoldilocksConfig;
        pub type PoseidonGoldilocksConfig = Poseidon2GoldilocksConfig;
        impl GenericConfig<2> for Poseidon2GoldilocksConfig { type F = GoldilocksField; type Hasher = crate::hash::poseidon2::Poseidon2Hash; }
    }
    pub mod proof {
        use super::config::GenericConfig;
        use crate::field::extension::Extendable;
        use crate::hash::hash_types::RichField;
        use crate::iop::target::Target;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub seal: [F; 4], pub config: std::marker::PhantomData<C> }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub proof: Proof<F, C, D>, pub public_inputs: Vec<F> }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ProofTarget<const D: usize> { pub seal: [Target; 4] }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct ProofWithPublicInputsTarget<const D: usize> { pub proof: ProofTarget<D>, pub public_inputs: Vec<Target> }
    }
    pub mod circuit_data {
        use anyhow::{ensure, Result};
        use super::circuit_builder::Op;
        use super::config::{GenericConfig, GenericHashOut, Hasher};
        use super::proof::{Proof, ProofWithPublicInputs};
        use crate::field::extension::Extendable;
        use crate::fri::FriConfig;
        use crate::hash::hash_types::{HashOutTarget, MerkleCapTarget, RichField};
        use crate::hash::merkle_tree::MerkleCap;
        use crate::iop::target::Target;
        use crate::iop::witness::PartialWitness;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct CircuitConfig { pub security_bits: usize, pub num_challenges: usize, pub zero_knowledge: bool, pub fri_config: FriConfig }
        impl CircuitConfig {
            pub const fn standard_recursion_config() -> Self { Self { security_bits: 100, num_challenges: 2, zero_knowledge: false, fri_config: FriConfig { cap_height: 4, proof_of_work_bits: 16, num_query_rounds: 28 } } }
            pub const fn standard_recursion_zk_config() -> Self { let mut c = Self::standard_recursion_config(); c.zero_knowledge = true; c }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct VerifierCircuitTarget { pub constants_sigmas_cap: MerkleCapTarget, pub circuit_digest: HashOutTarget }
        #[derive(Clone, Debug)]
        pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> { pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>, pub circuit_digest: <C::Hasher as Hasher<C::F>>::Hash }
        impl<C: GenericConfig<D>, const D: usize> PartialEq for VerifierOnlyCircuitData<C, D> { fn eq(&self, o: &Self) -> bool { self.constants_sigmas_cap == o.constants_sigmas_cap && self.circuit_digest == o.circuit_digest } }
        impl<C: GenericConfig<D>, const D: usize> Eq for VerifierOnlyCircuitData<C, D> {}
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct CommonCircuitData<F, const D: usize> { pub config: CircuitConfig, pub num_public_inputs: usize, pub gates: Vec<String>, pub degree: usize, pub field: std::marker::PhantomData<F> }
        impl<F, const D: usize> CommonCircuitData<F, D> { pub fn degree(&self) -> usize { self.degree } pub fn degree_bits(&self) -> usize { self.degree.ilog2() as usize } }
        #[derive(Debug)]
        pub struct ProverOnlyCircuitData<F> { pub public_inputs: Vec<Target>, pub ops: Vec<Op<F>>, pub rep: Vec<usize> }
        #[derive(Debug)]
        pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub prover_only: ProverOnlyCircuitData<F>, pub verifier_only: VerifierOnlyCircuitData<C, D>, pub common: CommonCircuitData<F, D> }
        /// what only a prover makes
        pub fn seal<F: RichField, H: Hasher<F>>(digest: &[F], cap: &[F], pis: &[F]) -> [F; 4] {
            let mut v = vec![F::from_canonical_u64(0x5ea1), F::from_canonical_usize(pis.len())]; v.extend(digest); v.extend(cap); v.extend(pis);
            H::hash_no_pad(&v).to_vec().try_into().ok().unwrap()
        }
        impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
            fn words(&self) -> (Vec<F>, Vec<F>) { (self.verifier_only.circuit_digest.to_vec(), self.verifier_only.constants_sigmas_cap.0.iter().flat_map(|h| h.to_vec()).collect()) }
            pub fn prove(&self, w: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
                let vals = super::circuit_builder::run::<F, C::Hasher>(&self.prover_only, w)?;
                let public_inputs: Vec<F> = self.prover_only.public_inputs.iter().map(|t| vals[self.prover_only.rep[t.0]].expect("public input was not set")).collect();
                let (d, c) = self.words();
                Ok(ProofWithPublicInputs { proof: Proof { seal: seal::<F, C::Hasher>(&d, &c, &public_inputs), config: std::marker::PhantomData }, public_inputs })
            }
            pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> {
                let (d, c) = self.words();
                ensure!(p.public_inputs.len() == self.common.num_public_inputs && p.proof.seal == seal::<F, C::Hasher>(&d, &c, &p.public_inputs), "not a proof of this circuit");
                Ok(())
            }
        }
    }
    pub mod circuit_builder {
        use anyhow::{ensure, Result};
        use super::circuit_data::{seal, CircuitConfig, CircuitData, CommonCircuitData, ProverOnlyCircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData};
        use super::config::{AlgebraicHasher, GenericConfig, Hasher};
        use super::proof::{ProofTarget, ProofWithPublicInputsTarget};
        use crate::field::extension::Extendable;
        use crate::field::types::Field;
        use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
        use crate::hash::merkle_tree::MerkleCap;
        use crate::iop::target::{BoolTarget, Target};
        use crate::iop::witness::PartialWitness;
        #[derive(Clone, Debug)]
        pub enum Op<F> {
            Const(F, Target), Arith([F; 2], [Target; 3], Target), Equal([Target; 2], Target), Inverse(Target, Target), Select([Target; 3], Target),
            Native(fn(&[u64]) -> Vec<u64>, Vec<Target>, Vec<Target>), Bits(Target, Vec<Target>), LowHigh(Target, [usize; 2], [Target; 2]), Hash(Vec<Target>, [Target; 4]), Range(Target, usize), Bool(Target),
            Verify { pis: Vec<Target>, seal: [Target; 4], digest: [Target; 4], cap: Vec<Target> },
        }
        fn find(rep: &mut Vec<usize>, x: usize) -> usize { let mut r = x; while rep[r] != r { r = rep[r]; } let mut y = x; while rep[y] != r { let n = rep[y]; rep[y] = r; y = n; } r }
        pub fn run<F: RichField, H: Hasher<F>>(p: &ProverOnlyCircuitData<F>, w: PartialWitness<F>) -> Result<Vec<Option<F>>> {
            let mut vals: Vec<Option<F>> = vec![None; p.rep.len()];
            fn set<F: Field>(vals: &mut [Option<F>], rep: &[usize], t: Target, v: F) { let s = &mut vals[rep[t.0]]; if let Some(o) = *s { assert!(o == v, "Partition containing {t:?} was set twice with different values: {o} != {v}"); } *s = Some(v); }
            for (t, v) in w.target_values { set(&mut vals, &p.rep, t, v); }
            let mut todo: Vec<&Op<F>> = p.ops.iter().collect();
            let mut checks = vec![];
            loop {
                let before = todo.len(); let mut rest = vec![];
                for op in todo {
                    let g = |t: &Target| vals[p.rep[t.0]];
                    let out: Option<Vec<(Target, F)>> = match op {
                        Op::Const(c, o) => Some(vec![(*o, *c)]),
                        Op::Arith(c, [a, b, d], o) => (|| Some(vec![(*o, c[0] * g(a)? * g(b)? + c[1] * g(d)?)]))(),
                        Op::Equal([a, b], o) => (|| Some(vec![(*o, F::from_bool(g(a)? == g(b)?))]))(),
                        Op::Inverse(a, o) => (|| Some(vec![(*o, g(a)?.inverse())]))(),
                        Op::Select([c, a, b], o) => (|| { let (c, a, b) = (g(c)?, g(a)?, g(b)?); Some(vec![(*o, c * a + b - c * b)]) })(),
                        Op::Bits(a, os) => (|| { let v = g(a)?.to_u64(); Some(os.iter().enumerate().map(|(i, o)| (*o, F::from_canonical_u64(v >> i & 1))).collect()) })(),
                        Op::LowHigh(a, [n, _], [l, h]) => (|| { let v = g(a)?.to_u64(); Some(vec![(*l, F::from_canonical_u64(v & ((1 << n) - 1))), (*h, F::from_canonical_u64(v >> n))]) })(),
                        Op::Hash(is, os) => (|| { let v = is.iter().map(g).collect::<Option<Vec<_>>>()?; let h = super::config::GenericHashOut::to_vec(&H::hash_no_pad(&v)); Some(os.iter().copied().zip(h).collect()) })(),
                        Op::Native(f, is, os) => (|| { let v = is.iter().map(|i| g(i).map(|x| x.to_u64())).collect::<Option<Vec<_>>>()?; Some(os.iter().copied().zip(f(&v).into_iter().map(F::from_canonical_u64)).collect()) })(),
                        Op::Range(..) | Op::Bool(..) | Op::Verify { .. } => { checks.push(op); Some(vec![]) }
                    };
                    match out { Some(o) => for (t, v) in o { set(&mut vals, &p.rep, t, v); }, None => rest.push(op) }
                }
                todo = rest;
                if todo.len() == before || todo.is_empty() { break; }
            }
            assert_eq!(todo.len(), 0, "{} generators weren't run", todo.len());
            let g = |t: &Target| vals[p.rep[t.0]].unwrap_or(F::ZERO);
            for op in &p.ops { match op {
                Op::Bits(a, os) => ensure!(os.len() >= 64 || g(a).to_u64() >> os.len() == 0, "a value does not fit its bits"),
                Op::LowHigh(a, [_, n], _) => ensure!(*n >= 64 || g(a).to_u64() >> n == 0, "a value does not fit its bits"),
                Op::Range(a, n) => ensure!(*n >= 64 || g(a).to_u64() >> n == 0, "a value is out of range"),
                Op::Bool(a) => ensure!(g(a).is_zero() || g(a).is_one(), "not a boolean"),
                Op::Verify { pis, seal: s, digest, cap } => { let v = |ts: &[Target]| ts.iter().map(g).collect::<Vec<_>>();
                    assert!(seal::<F, H>(&v(digest), &v(cap), &v(pis)).to_vec() == v(s), "Partition of an embedded proof that does not verify was set twice with different values"); }
                _ => {}
            } }
            let _ = checks;
            Ok(vals)
        }
        #[derive(Debug)]
        pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> { pub config: CircuitConfig, ops: Vec<Op<F>>, rep: Vec<usize>, links: Vec<[usize; 2]>, gates: usize, public: Vec<Target>, consts: Vec<(F, Target)> }
        impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
            pub fn new(config: CircuitConfig) -> Self { Self { config, ops: vec![], rep: vec![], links: vec![], gates: 0, public: vec![], consts: vec![] } }
            fn op(&mut self, o: Op<F>) { self.ops.push(o); self.gates += 1; }
            pub fn num_gates(&self) -> usize { self.gates }
            pub fn num_public_inputs(&self) -> usize { self.public.len() }
            pub fn public_inputs(&self) -> &[Target] { &self.public }
            pub fn add_gate<G>(&mut self, _: G, _: Vec<F>) -> usize { self.gates += 1; self.gates - 1 }
            pub fn add_gate_to_gate_set(&mut self, _: String) {}
            pub fn add_virtual_target(&mut self) -> Target { self.rep.push(self.rep.len()); Target(self.rep.len() - 1) }
            pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
            pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] { [(); N].map(|()| self.add_virtual_target()) }
            pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
            pub fn add_virtual_cap(&mut self, h: usize) -> MerkleCapTarget { MerkleCapTarget((0..1 << h).map(|_| self.add_virtual_hash()).collect()) }
            pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
            pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
            pub fn add_virtual_public_input(&mut self) -> Target { let t = self.add_virtual_target(); self.register_public_input(t); t }
            pub fn add_virtual_proof_with_pis(&mut self, c: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> { let seal = self.add_virtual_target_arr(); ProofWithPublicInputsTarget { proof: ProofTarget { seal }, public_inputs: self.add_virtual_targets(c.num_public_inputs) } }
            pub fn add_virtual_verifier_data(&mut self, h: usize) -> VerifierCircuitTarget { VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(h), circuit_digest: self.add_virtual_hash() } }
            pub fn register_public_input(&mut self, t: Target) { self.public.push(t); }
            pub fn register_public_inputs(&mut self, ts: &[Target]) { self.public.extend(ts); }
            pub fn connect(&mut self, a: Target, b: Target) { self.links.push([a.0, b.0]); let (x, y) = (find(&mut self.rep, a.0), find(&mut self.rep, b.0)); self.rep[x] = y; }
            pub fn connect_hashes(&mut self, a: HashOutTarget, b: HashOutTarget) { for (x, y) in a.elements.into_iter().zip(b.elements) { self.connect(x, y); } }
            pub fn connect_verifier_data(&mut self, a: &VerifierCircuitTarget, b: &VerifierCircuitTarget) { for (x, y) in a.constants_sigmas_cap.0.iter().zip(&b.constants_sigmas_cap.0) { self.connect_hashes(*x, *y); } self.connect_hashes(a.circuit_digest, b.circuit_digest); }
            pub fn assert_zero(&mut self, a: Target) { let z = self.zero(); self.connect(a, z); }
            pub fn assert_one(&mut self, a: Target) { let z = self.one(); self.connect(a, z); }
            pub fn assert_bool(&mut self, b: BoolTarget) { self.op(Op::Bool(b.target)); }
            pub fn constant(&mut self, c: F) -> Target { if let Some((_, t)) = self.consts.iter().find(|(x, _)| *x == c) { return *t; } let t = self.add_virtual_target(); self.op(Op::Const(c, t)); self.consts.push((c, t)); t }
            pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }
            pub fn one(&mut self) -> Target { self.constant(F::ONE) }
            pub fn two(&mut self) -> Target { self.constant(F::TWO) }
            pub fn _false(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.zero()) }
            pub fn _true(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.one()) }
            pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|e| self.constant(e)) } }
            pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget where C::Hasher: AlgebraicHasher<F> {
                VerifierCircuitTarget { constants_sigmas_cap: MerkleCapTarget(v.constants_sigmas_cap.0.iter().map(|h| self.constant_hash(*h)).collect()), circuit_digest: self.constant_hash(v.circuit_digest) } }
            pub fn arithmetic(&mut self, c0: F, c1: F, a: Target, b: Target, d: Target) -> Target { let t = self.add_virtual_target(); self.op(Op::Arith([c0, c1], [a, b, d], t)); t }
            pub fn add(&mut self, a: Target, b: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::ONE, a, o, b) }
            pub fn sub(&mut self, a: Target, b: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, a, o, b) }
            pub fn mul(&mut self, a: Target, b: Target) -> Target { self.arithmetic(F::ONE, F::ZERO, a, b, a) }
            pub fn mul_sub(&mut self, a: Target, b: Target, c: Target) -> Target { self.arithmetic(F::ONE, F::NEG_ONE, a, b, c) }
            pub fn mul_add(&mut self, a: Target, b: Target, c: Target) -> Target { self.arithmetic(F::ONE, F::ONE, a, b, c) }
            pub fn mul_const(&mut self, c: F, a: Target) -> Target { let o = self.one(); self.arithmetic(c, F::ZERO, a, o, a) }
            pub fn mul_const_add(&mut self, c: F, a: Target, b: Target) -> Target { let o = self.one(); self.arithmetic(c, F::ONE, a, o, b) }
            pub fn add_const(&mut self, a: Target, c: F) -> Target { let c = self.constant(c); self.add(a, c) }
            pub fn neg(&mut self, a: Target) -> Target { self.mul_const(F::NEG_ONE, a) }
            pub fn inverse(&mut self, a: Target) -> Target { let t = self.add_virtual_target(); self.op(Op::Inverse(a, t)); let p = self.mul(a, t); self.assert_one(p); t }
            pub fn div(&mut self, a: Target, b: Target) -> Target { let i = self.inverse(b); self.mul(a, i) }
            pub fn not(&mut self, a: BoolTarget) -> BoolTarget { let o = self.one(); BoolTarget::new_unsafe(self.sub(o, a.target)) }
            pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
            pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { let n = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target); BoolTarget::new_unsafe(self.add(n, b.target)) }
            pub fn select(&mut self, c: BoolTarget, a: Target, b: Target) -> Target { let t = self.add_virtual_target(); self.op(Op::Select([c.target, a, b], t)); t }
            pub fn is_equal(&mut self, a: Target, b: Target) -> BoolTarget { let t = self.add_virtual_target(); self.op(Op::Equal([a, b], t)); BoolTarget::new_unsafe(t) }
            pub fn is_nonzero(&mut self, a: Target) -> BoolTarget { let z = self.zero(); let e = self.is_equal(a, z); self.not(e) }
            pub fn split_le(&mut self, a: Target, n: usize) -> Vec<BoolTarget> { let ts = self.add_virtual_targets(n); self.op(Op::Bits(a, ts.clone())); ts.into_iter().map(BoolTarget::new_unsafe).collect() }
            pub fn split_low_high(&mut self, a: Target, n: usize, bits: usize) -> (Target, Target) { let ts = self.add_virtual_target_arr(); self.op(Op::LowHigh(a, [n, bits], ts)); (ts[0], ts[1]) }
            pub fn native(&mut self, f: fn(&[u64]) -> Vec<u64>, is: Vec<Target>, n: usize) -> Vec<Target> { let os = self.add_virtual_targets(n); self.op(Op::Native(f, is, os.clone())); os }
            pub fn print_gate_counts(&self, _: usize) {}
            pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, is: Vec<Target>) -> HashOutTarget { if is.len() > 4 { return self.hash_n_to_hash_no_pad::<H>(is); } let z = self.zero(); let mut e = [z; 4]; e[..is.len()].copy_from_slice(&is); HashOutTarget { elements: e } }
            pub fn range_check(&mut self, a: Target, n: usize) { self.op(Op::Range(a, n)); }
            pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, is: Vec<Target>) -> HashOutTarget { let elements = self.add_virtual_target_arr(); self.op(Op::Hash(is, elements)); HashOutTarget { elements } }
            pub fn verify_proof<C: GenericConfig<D, F = F>>(&mut self, p: &ProofWithPublicInputsTarget<D>, v: &VerifierCircuitTarget, c: &CommonCircuitData<F, D>) where C::Hasher: AlgebraicHasher<F> {
                assert_eq!(p.public_inputs.len(), c.num_public_inputs);
                let cap = v.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).collect();
                self.op(Op::Verify { pis: p.public_inputs.clone(), seal: p.proof.seal, digest: v.circuit_digest.elements, cap });
            }
            pub fn build<C: GenericConfig<D, F = F>>(mut self) -> CircuitData<F, C, D> {
                let rep: Vec<usize> = (0..self.rep.len()).map(|i| find(&mut self.rep, i)).collect();
                let text = format!("{:?}{:?}{:?}{:?}", self.ops, self.links, self.public, self.gates);
                let words: Vec<F> = text.as_bytes().chunks(7).map(|c| { let mut b = [0; 8]; b[..c.len()].copy_from_slice(c); F::from_canonical_u64(u64::from_le_bytes(b)) }).collect();
                // most of a long text is folded natively, the rest by the hasher
                let mut acc = [F::ONE; 8]; for (i, w) in words.iter().enumerate() { let k = i % 8; acc[k] = (acc[k] * F::from_canonical_u64(0x9E37_79B9_7F4A_7C15 >> 1) + *w).exp_u64(3) + acc[(k + 1) % 8]; }
                let digest = C::Hasher::hash_no_pad(&acc);
                let cap = (0..1 << self.config.fri_config.cap_height).map(|i| C::Hasher::hash_no_pad(&[acc[0], acc[1], acc[2], F::from_canonical_usize(i)])).collect();
                let common = CommonCircuitData { config: self.config, num_public_inputs: self.public.len(), gates: vec!["all".into()], degree: self.gates.next_power_of_two(), field: std::marker::PhantomData };
                CircuitData { prover_only: ProverOnlyCircuitData { public_inputs: self.public, ops: self.ops, rep }, verifier_only: VerifierOnlyCircuitData { constants_sigmas_cap: MerkleCap(cap), circuit_digest: digest }, common }
            }
        }
    }
}
