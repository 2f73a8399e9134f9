//! Stand-in for the `elf` crate (the slice of its API that reads headers and segments).
use std::fmt;
use std::marker::PhantomData;

pub mod abi {
    pub const EI_NIDENT: usize = 16;
    pub const ET_NONE: u16 = 0;
    pub const ET_REL: u16 = 1;
    pub const ET_EXEC: u16 = 2;
    pub const ET_DYN: u16 = 3;
    pub const ET_CORE: u16 = 4;
    pub const EM_386: u16 = 3;
    pub const EM_X86_64: u16 = 62;
    pub const EM_RISCV: u16 = 243;
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const PF_MASKOS: u32 = 0x0ff00000;
    pub const PF_MASKPROC: u32 = 0xf0000000;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_SHLIB: u32 = 5;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const PT_GNU_EH_FRAME: u32 = 0x6474e550;
    pub const PT_GNU_STACK: u32 = 0x6474e551;
    pub const PT_GNU_RELRO: u32 = 0x6474e552;
    pub const PN_XNUM: u16 = 0xffff;
}
#[derive(Debug)]
pub enum ParseError {
    BadMagic([u8; 4]),
    UnsupportedElfClass(u8),
    UnsupportedElfEndianness(u8),
    UnsupportedVersion((u64, u64)),
    BadOffset(u64),
    BadEntsize((u64, u64)),
    SliceReadError((usize, usize)),
    IntegerOverflow,
}
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for ParseError {}

pub mod endian {
    use super::ParseError;
    pub trait EndianParse: Clone + Copy + Default + PartialEq + Eq {
        fn from_ei_data(ei_data: u8) -> Result<Self, ParseError>;
        fn u16(self, b: [u8; 2]) -> u16;
        fn u32(self, b: [u8; 4]) -> u32;
        fn u64(self, b: [u8; 8]) -> u64;
    }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct LittleEndian;
    impl EndianParse for LittleEndian {
        fn from_ei_data(d: u8) -> Result<Self, ParseError> {
            if d == 1 { Ok(Self) } else { Err(ParseError::UnsupportedElfEndianness(d)) }
        }
        fn u16(self, b: [u8; 2]) -> u16 { u16::from_le_bytes(b) }
        fn u32(self, b: [u8; 4]) -> u32 { u32::from_le_bytes(b) }
        fn u64(self, b: [u8; 8]) -> u64 { u64::from_le_bytes(b) }
    }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub enum AnyEndian {
        #[default]
        Little,
        Big,
    }
    impl EndianParse for AnyEndian {
        fn from_ei_data(d: u8) -> Result<Self, ParseError> {
            match d {
                1 => Ok(Self::Little),
                2 => Ok(Self::Big),
                d => Err(ParseError::UnsupportedElfEndianness(d)),
            }
        }
        fn u16(self, b: [u8; 2]) -> u16 { if self == Self::Little { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) } }
        fn u32(self, b: [u8; 4]) -> u32 { if self == Self::Little { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) } }
        fn u64(self, b: [u8; 8]) -> u64 { if self == Self::Little { u64::from_le_bytes(b) } else { u64::from_be_bytes(b) } }
    }
}
use endian::EndianParse;

pub mod file {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Class {
        ELF32,
        ELF64,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct FileHeader<E> {
        pub class: Class,
        pub endianness: E,
        pub version: u32,
        pub osabi: u8,
        pub abiversion: u8,
        pub e_type: u16,
        pub e_machine: u16,
        pub e_entry: u64,
        pub e_phoff: u64,
        pub e_shoff: u64,
        pub e_flags: u32,
        pub e_ehsize: u16,
        pub e_phentsize: u16,
        pub e_phnum: u16,
        pub e_shentsize: u16,
        pub e_shnum: u16,
        pub e_shstrndx: u16,
    }
}
use file::{Class, FileHeader};

struct Rd<'a, E> {
    d: &'a [u8],
    o: usize,
    e: E,
    class: Class,
}
impl<'a, E: EndianParse> Rd<'a, E> {
    fn b<const N: usize>(&mut self) -> Result<[u8; N], ParseError> {
        let end = self.o.checked_add(N).ok_or(ParseError::IntegerOverflow)?;
        let r = self.d.get(self.o..end).ok_or(ParseError::SliceReadError((self.o, end)))?;
        self.o = end;
        Ok(r.try_into().unwrap())
    }
    fn h(&mut self) -> Result<u16, ParseError> { let b = self.b()?; Ok(self.e.u16(b)) }
    fn w(&mut self) -> Result<u32, ParseError> { let b = self.b()?; Ok(self.e.u32(b)) }
    fn d(&mut self) -> Result<u64, ParseError> { let b = self.b()?; Ok(self.e.u64(b)) }
    fn a(&mut self) -> Result<u64, ParseError> {
        match self.class {
            Class::ELF32 => self.w().map(u64::from),
            Class::ELF64 => self.d(),
        }
    }
}

pub mod segment {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32,
        pub p_offset: u64,
        pub p_vaddr: u64,
        pub p_paddr: u64,
        pub p_filesz: u64,
        pub p_memsz: u64,
        pub p_flags: u32,
        pub p_align: u64,
    }
    pub type SegmentTable<'data, E> = crate::parse::ParsingTable<'data, E, ProgramHeader>;
}
use segment::{ProgramHeader, SegmentTable};

pub mod parse {
    use super::*;
    pub use super::ParseError;
    #[derive(Debug, Clone, Copy)]
    pub struct ParsingTable<'data, E, P> {
        pub(crate) data: &'data [u8],
        pub(crate) e: E,
        pub(crate) class: Class,
        pub(crate) pd: PhantomData<P>,
    }
    pub(crate) fn phsize(c: Class) -> usize { if c == Class::ELF32 { 32 } else { 56 } }
    impl<'data, E: EndianParse> ParsingTable<'data, E, ProgramHeader> {
        pub fn len(&self) -> usize { self.data.len() / phsize(self.class) }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn get(&self, i: usize) -> Result<ProgramHeader, ParseError> {
            if i >= self.len() {
                return Err(ParseError::BadOffset(i as u64));
            }
            let mut r = Rd { d: self.data, o: i * phsize(self.class), e: self.e, class: self.class };
            Ok(match self.class {
                Class::ELF32 => {
                    let p_type = r.w()?;
                    let p_offset = r.a()?;
                    let p_vaddr = r.a()?;
                    let p_paddr = r.a()?;
                    let p_filesz = r.a()?;
                    let p_memsz = r.a()?;
                    let p_flags = r.w()?;
                    let p_align = r.a()?;
                    ProgramHeader { p_type, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_flags, p_align }
                }
                Class::ELF64 => {
                    let p_type = r.w()?;
                    let p_flags = r.w()?;
                    let p_offset = r.a()?;
                    let p_vaddr = r.a()?;
                    let p_paddr = r.a()?;
                    let p_filesz = r.a()?;
                    let p_memsz = r.a()?;
                    let p_align = r.a()?;
                    ProgramHeader { p_type, p_offset, p_vaddr, p_paddr, p_filesz, p_memsz, p_flags, p_align }
                }
            })
        }
        pub fn iter(&self) -> ParsingIterator<'data, E> { ParsingIterator { t: *self, i: 0 } }
    }
    pub struct ParsingIterator<'data, E> {
        t: ParsingTable<'data, E, ProgramHeader>,
        i: usize,
    }
    impl<'data, E: EndianParse> Iterator for ParsingIterator<'data, E> {
        type Item = ProgramHeader;
        fn next(&mut self) -> Option<ProgramHeader> {
            let r = self.t.get(self.i).ok()?;
            self.i += 1;
            Some(r)
        }
    }
    impl<'data, E: EndianParse> IntoIterator for ParsingTable<'data, E, ProgramHeader> {
        type Item = ProgramHeader;
        type IntoIter = ParsingIterator<'data, E>;
        fn into_iter(self) -> Self::IntoIter { self.iter() }
    }
}

#[derive(Debug)]
pub struct ElfBytes<'data, E: EndianParse> {
    pub ehdr: FileHeader<E>,
    data: &'data [u8],
    segs: Option<SegmentTable<'data, E>>,
}
impl<'data, E: EndianParse> ElfBytes<'data, E> {
    pub fn minimal_parse(data: &'data [u8]) -> Result<Self, ParseError> {
        let id = data.get(..16).ok_or(ParseError::SliceReadError((0, 16)))?;
        if id[..4] != [0x7f, b'E', b'L', b'F'] {
            return Err(ParseError::BadMagic(id[..4].try_into().unwrap()));
        }
        if id[6] != 1 {
            return Err(ParseError::UnsupportedVersion((u64::from(id[6]), 1)));
        }
        let class = match id[4] {
            1 => Class::ELF32,
            2 => Class::ELF64,
            c => return Err(ParseError::UnsupportedElfClass(c)),
        };
        let e = E::from_ei_data(id[5])?;
        let mut r = Rd { d: data, o: 16, e, class };
        let e_type = r.h()?;
        let e_machine = r.h()?;
        let version = r.w()?;
        let e_entry = r.a()?;
        let e_phoff = r.a()?;
        let e_shoff = r.a()?;
        let e_flags = r.w()?;
        let e_ehsize = r.h()?;
        let e_phentsize = r.h()?;
        let e_phnum = r.h()?;
        let e_shentsize = r.h()?;
        let e_shnum = r.h()?;
        let e_shstrndx = r.h()?;
        let ehdr = FileHeader {
            class, endianness: e, version, osabi: id[7], abiversion: id[8], e_type, e_machine, e_entry, e_phoff,
            e_shoff, e_flags, e_ehsize, e_phentsize, e_phnum, e_shentsize, e_shnum, e_shstrndx,
        };
        // section headers, as the original: present iff e_shoff > 0, and then in bounds
        let shsz: u64 = if class == Class::ELF32 { 40 } else { 64 };
        if e_shoff > 0 {
            if u64::from(e_shentsize) != shsz {
                return Err(ParseError::BadEntsize((u64::from(e_shentsize), shsz)));
            }
            let start = usize::try_from(e_shoff).map_err(|_| ParseError::IntegerOverflow)?;
            let n = (e_shnum as usize).max(1);
            let end = start.checked_add(n * shsz as usize).ok_or(ParseError::IntegerOverflow)?;
            data.get(start..end).ok_or(ParseError::SliceReadError((start, end)))?;
        }
        let segs = if e_phoff == 0 {
            None
        } else {
            let psz = parse::phsize(class);
            if e_phentsize as usize != psz {
                return Err(ParseError::BadEntsize((u64::from(e_phentsize), psz as u64)));
            }
            let start = usize::try_from(e_phoff).map_err(|_| ParseError::IntegerOverflow)?;
            let end = start
                .checked_add(e_phnum as usize * psz)
                .ok_or(ParseError::IntegerOverflow)?;
            let d = data.get(start..end).ok_or(ParseError::SliceReadError((start, end)))?;
            Some(SegmentTable { data: d, e, class, pd: PhantomData })
        };
        Ok(Self { ehdr, data, segs })
    }
    pub fn segments(&self) -> Option<SegmentTable<'data, E>>
    where
        E: Copy, {
        self.segs.as_ref().map(|s| SegmentTable { data: s.data, e: s.e, class: s.class, pd: PhantomData })
    }
    pub fn segment_data(&self, phdr: &ProgramHeader) -> Result<&'data [u8], ParseError> {
        let start = phdr.p_offset as usize;
        let end = start.checked_add(phdr.p_filesz as usize).ok_or(ParseError::IntegerOverflow)?;
        self.data.get(start..end).ok_or(ParseError::SliceReadError((start, end)))
    }
}
