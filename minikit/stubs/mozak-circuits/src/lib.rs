//! Stand-in for what the unit tests of the node take from the circuits.
pub mod test_utils {
    pub const fn fast_test_circuit_config() -> plonky2::plonk::circuit_data::CircuitConfig { plonky2::plonk::circuit_data::CircuitConfig::standard_recursion_config() }
}
