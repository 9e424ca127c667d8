pub mod core {
    #[path = "/repo/sdk/src/core/ecall.rs"]
    pub mod ecall;
    #[path = "/repo/sdk/src/core/reg_abi.rs"]
    pub mod reg_abi;
    pub mod constants {
        pub const DIGEST_BYTES: usize = 32;
        pub const RATE: usize = 8;
    }
}
