# Behaviour-preserving edits around serialisation, and of small types everywhere
IT="sdk/src/native/inputtape.rs"; CT="sdk/src/native/calltape.rs"; PH="sdk/src/common/types/poseidon2hash.rs"; EV="sdk/src/common/types/event.rs"
ST="sdk/src/common/types/system_tape.rs"; EL="runner/src/elf.rs"; CO="runner/src/code.rs"; SR="runner/src/state.rs"; MS="circuits/src/stark/mozak_stark.rs"; NT="node/src/types.rs"; ET="sdk/src/native/eventtape.rs"; IN="runner/src/instruction.rs"; CLI="cli/src/main.rs"
R={}
R["z1_use_serde"]=[(IT,"use std::rc::Rc;\n","use std::rc::Rc;\n\nuse serde::{Deserialize, Serialize};\n"),(IT,"#[derive(Default, Clone, serde::Serialize, serde::Deserialize)]","#[derive(Default, Clone, Serialize, Deserialize)]")]
R["z2_split_derive"]=[(EL,"#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]\npub struct Program","#[derive(Clone, Debug, Default, PartialEq)]\n#[derive(Serialize)]\n#[derive(Deserialize)]\npub struct Program")]
R["z3_alias_map"]=[(EL,"pub struct Data(pub HashMap<u32, u8>);","pub struct Data(pub Bytes);\n\ntype Bytes = HashMap<u32, u8>;")]
R["z4_field_order"]=[(EL,"""    /// The entrypoint of the program
    pub entry_point: u32,

""",""),(EL,"""    /// Executable code of the ELF, read only
    pub ro_code: Code,
}""","""    /// Executable code of the ELF, read only
    pub ro_code: Code,

    /// The entrypoint of the program
    pub entry_point: u32,
}""")]
R["z5_alias_decoded"]=[(CO,"pub struct Code(pub HashMap<u32, Result<Instruction, DecodingError>>);","pub struct Code(pub HashMap<u32, Decoded>);\n\ntype Decoded = Result<Instruction, DecodingError>;")]
R["z6_ph_uncond"]=[(PH,"use serde_hex::{SerHex, StrictPfx};","use serde_hex::{SerHex, StrictPfx as Pfx};"),(PH,'SerHex::<StrictPfx>','SerHex::<Pfx>')]
R["z7_path"]=[(PH,"#[cfg(not(target_os = \"mozakvm\"))]\nuse serde_hex::{SerHex, StrictPfx};\n\n",""),(PH,'SerHex::<StrictPfx>','serde_hex::SerHex::<serde_hex::StrictPfx>')]
R["z8_len"]=[(PH,"    pub  [u8; DIGEST_BYTES],","    pub  [u8; 32],")]
R["z9_len_path"]=[(PH,"    pub  [u8; DIGEST_BYTES],","    pub  [u8; crate::core::constants::DIGEST_BYTES],")]
R["z10_rkyv_use"]=[(EV,"#[derive(\n    Default, Clone, Hash, PartialEq, PartialOrd, rkyv::Archive, rkyv::Serialize, rkyv::Deserialize,\n)]","#[derive(Default, Clone, Hash, PartialEq, PartialOrd)]\n#[derive(rkyv::Archive, rkyv::Deserialize, rkyv::Serialize)]")]
R["z11_event_path"]=[(EV,"    pub object: super::StateObject,","    pub object: crate::common::types::StateObject,")]
R["z12_discr"]=[(EV,"    Ensure,\n    Read,\n    GiveOwner,\n    TakeOwner,\n}","    Ensure = 1,\n    Read = 2,\n    GiveOwner = 3,\n    TakeOwner = 4,\n}")]
R["z13_default_derive"]=[(EV,"    Copy,\n    Clone,\n    Hash,\n    Eq,\n    PartialEq,\n    Ord,\n    PartialOrd,\n    rkyv::Archive,\n    rkyv::Serialize,\n    rkyv::Deserialize,\n)]\n#[cfg_attr(\n    not(target_os = \"mozakvm\"),\n    derive(Debug, serde::Serialize, serde::Deserialize)\n)]\n#[allow(clippy::module_name_repetitions)]\n#[repr(u8)]","    Default,\n    Copy,\n    Clone,\n    Hash,\n    Eq,\n    PartialEq,\n    Ord,\n    PartialOrd,\n    rkyv::Archive,\n    rkyv::Serialize,\n    rkyv::Deserialize,\n)]\n#[cfg_attr(\n    not(target_os = \"mozakvm\"),\n    derive(Debug, serde::Serialize, serde::Deserialize)\n)]\n#[allow(clippy::module_name_repetitions)]\n#[repr(u8)]"),
 (EV,"    Read,\n    GiveOwner,","    #[default]\n    Read,\n    GiveOwner,"),(EV,"impl Default for EventType {\n    fn default() -> Self { Self::Read }\n}\n\n","")]
R["z14_tuple_alias"]=[(ET,"    temporal_ordering: Vec<(Event, CanonicalEvent)>,","    temporal_ordering: Vec<Emitted>,"),(ET,"/// A list with ordered events according","type Emitted = (Event, CanonicalEvent);\n\n/// A list with ordered events according")]
R["z15_skip_alias"]=[(CT,"    pub(crate) identity_stack: Rc<RefCell<IdentityStack>>,","    pub(crate) identity_stack: Shared,"),(CT,"/// Represents the `CallTape` under","type Shared = Rc<RefCell<IdentityStack>>;\n\n/// Represents the `CallTape` under")]
R["z16_skip_both"]=[(CT,"    #[serde(skip)]\n    pub(crate) identity_stack","    #[serde(skip_serializing, skip_deserializing, default)]\n    pub(crate) identity_stack")]
R["z17_public"]=[(MS,"pub struct PublicInputs<F> {\n    pub entry_point: F,\n}","pub struct PublicInputs<T> {\n    pub entry_point: T,\n}"),(MS,'#[repr(C)]\n#[derive(Clone, Copy, Eq, PartialEq, Debug, Serialize, Deserialize)]\n#[serde(bound = "F: Field")]','#[repr(C)]\n#[derive(Clone, Copy, Eq, PartialEq, Debug, Serialize, Deserialize)]\n#[serde(bound = "T: Field")]')]
R["z18_tka"]=[(MS,'#[serde(transparent)]\n#[serde(bound = "T: Serialize + DeserializeOwned")]','#[serde(transparent, bound = "T: Serialize + DeserializeOwned")]'),(MS,'#[serde(with = "BigArray")]','#[serde(with = "serde_big_array::BigArray")]')]
R["z19_tape"]=[(SR,"    pub data: Rc<[u8]>,\n    pub read_index: usize,\n}\n\nimpl Default for Sto","    pub data: Bytes,\n    pub read_index: usize,\n}\n\ntype Bytes = Rc<[u8]>;\n\nimpl Default for Sto")]
R["z20_bound"]=[(NT,'#[derive(Debug, Serialize, Deserialize)]\n#[serde(bound = "")]\npub struct Attestation','#[derive(Debug, Serialize, Deserialize)]\npub struct Attestation')]
R["z21_cfgless"]=[(ST,'''#[derive(Default, Clone)]
#[cfg_attr(
    not(target_os = "mozakvm"),
    derive(Debug, serde::Serialize, serde::Deserialize)
)]''','''#[cfg_attr(not(target_os = "mozakvm"), derive(Debug))]
#[cfg_attr(not(target_os = "mozakvm"), derive(serde::Serialize))]
#[cfg_attr(not(target_os = "mozakvm"), derive(serde::Deserialize))]
#[derive(Default, Clone)]''')]
R["z22_cli_mapped"]=[(CLI,"""                    .map(|mp| (ProgramIdentifier::from(mp.name), mp.path))""","""                    .map(|MappedProgram { name, path }| (ProgramIdentifier::from(name), path))""")]
R["z23_newtype_instr"]=[(IN,"#[derive(Debug, Clone, Copy, Eq, PartialEq, Serialize, Deserialize)]\npub struct Instruction","#[derive(Clone, Copy, Debug, PartialEq, Eq, Deserialize, Serialize)]\n#[allow(missing_docs)]\npub struct Instruction")]
R["z24_move_type"]=[(IT,"#[derive(Default, Clone, serde::Serialize, serde::Deserialize)]\npub struct RawTape {\n    #[serde(skip)]\n    pub(crate) identity_stack: Rc<RefCell<IdentityStack>>,\n    #[serde(rename = \"individual_raw_tapes\")]\n    pub writer: HashMap<ProgramIdentifier, RawMessage>,\n}","pub use tape::RawTape;\n\nmod tape {\n    use super::{HashMap, IdentityStack, ProgramIdentifier, RawMessage, Rc, RefCell};\n\n    #[derive(Default, Clone, serde::Serialize, serde::Deserialize)]\n    pub struct RawTape {\n        #[serde(skip)]\n        pub(crate) identity_stack: Rc<RefCell<IdentityStack>>,\n        #[serde(rename = \"individual_raw_tapes\")]\n        pub writer: HashMap<ProgramIdentifier, RawMessage>,\n    }\n}")]
