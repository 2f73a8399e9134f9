pub const EMPTY_ELF: &[u8] = &[]; pub const FIBONACCI_ELF: &[u8] = &[];
