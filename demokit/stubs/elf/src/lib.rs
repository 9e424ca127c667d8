//! minimal ELF32 little-endian reader with the interface the loader uses
#![allow(non_camel_case_types)]
pub mod endian { pub struct LittleEndian; }
pub mod abi {
    pub const EM_RISCV: u16 = 243;
    pub const ET_EXEC: u16 = 2;
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const PT_LOAD: u32 = 1;
}
pub mod file {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Class { ELF32, ELF64 }
    #[derive(Debug, Clone, Copy)]
    pub struct FileHeader { pub class: Class, pub e_machine: u16, pub e_type: u16, pub e_entry: u64 }
}
pub mod segment {
    #[derive(Debug, Clone, Copy)]
    pub struct ProgramHeader { pub p_type: u32, pub p_offset: u64, pub p_vaddr: u64, pub p_paddr: u64, pub p_filesz: u64, pub p_memsz: u64, pub p_flags: u32, pub p_align: u64 }
    #[derive(Debug, Clone)]
    pub struct SegmentTable<E>(pub Vec<ProgramHeader>, pub std::marker::PhantomData<E>);
    impl<E> SegmentTable<E> {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn iter(&self) -> impl Iterator<Item = ProgramHeader> + '_ { self.0.iter().copied() }
    }
}
#[derive(Debug)]
pub struct ParseError(pub &'static str);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for ParseError {}
pub struct ElfBytes<'d, E> { pub ehdr: file::FileHeader, data: &'d [u8], p: std::marker::PhantomData<E> }
fn r16(d: &[u8], o: usize) -> u16 { u16::from_le_bytes([d[o], d[o + 1]]) }
fn r32(d: &[u8], o: usize) -> u32 { u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) }
impl<'d, E> ElfBytes<'d, E> {
    pub fn minimal_parse(data: &'d [u8]) -> Result<Self, ParseError> {
        if data.len() < 52 || &data[..4] != b"\x7fELF" { return Err(ParseError("bad magic")); }
        let class = if data[4] == 1 { file::Class::ELF32 } else { file::Class::ELF64 };
        Ok(ElfBytes { ehdr: file::FileHeader { class, e_type: r16(data, 16), e_machine: r16(data, 18), e_entry: u64::from(r32(data, 24)) }, data, p: std::marker::PhantomData })
    }
    pub fn segments(&self) -> Option<segment::SegmentTable<E>> {
        let d = self.data;
        let (off, n) = (r32(d, 28) as usize, r16(d, 44) as usize);
        if off == 0 { return None; }
        let v = (0..n).map(|i| { let o = off + 32 * i; let g = |k| u64::from(r32(d, o + k));
            segment::ProgramHeader { p_type: r32(d, o), p_offset: g(4), p_vaddr: g(8), p_paddr: g(12), p_filesz: g(16), p_memsz: g(20), p_flags: r32(d, o + 24), p_align: g(28) } }).collect();
        Some(segment::SegmentTable(v, std::marker::PhantomData))
    }
}
