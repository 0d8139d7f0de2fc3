//! Uniform access to the 38 encodings of the crate under test.

use text_encoding::{single_byte as sb, DecodeResult, EncodeResult};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Utf8,
    U16 { be: bool },
    U32 { be: bool },
    Ascii,
    /// Index into `model::refs().sb`.
    Sb(usize),
    Big5,
    Sjis,
}

pub struct Enc {
    pub name: &'static str,
    pub kind: Kind,
    pub enc: for<'a> fn(&str, &'a mut [u8], bool) -> EncodeResult<'a>,
    pub dec: for<'a> fn(&[u8], &'a mut [u8], bool) -> DecodeResult<'a>,
}

macro_rules! plain {
    ($name:literal, $kind:expr, $p:path) => {{
        use $p as m;
        Enc {
            name: $name,
            kind: $kind,
            enc: |i, o, _| m::encode_from_str(i, o),
            dec: |i, o, _| m::decode_to_str(i, o),
        }
    }};
}
macro_rules! dec_end {
    ($name:literal, $kind:expr, $p:path) => {{
        use $p as m;
        Enc {
            name: $name,
            kind: $kind,
            enc: |i, o, _| m::encode_from_str(i, o),
            dec: |i, o, e| m::decode_to_str(i, o, e),
        }
    }};
}

pub static SB_REF_NAMES: [&str; 30] = [
    "ibm-cp866",
    "iso-8859-1",
    "iso-8859-2",
    "iso-8859-3",
    "iso-8859-4",
    "iso-8859-5",
    "iso-8859-6",
    "iso-8859-7",
    "iso-8859-8",
    "iso-8859-9",
    "iso-8859-10",
    "iso-8859-11",
    "iso-8859-13",
    "iso-8859-14",
    "iso-8859-15",
    "iso-8859-16",
    "koi8-r",
    "koi8-u",
    "mac-roman",
    "mac-cyrillic",
    "windows-cp874",
    "windows-cp1250",
    "windows-cp1251",
    "windows-cp1252",
    "windows-cp1253",
    "windows-cp1254",
    "windows-cp1255",
    "windows-cp1256",
    "windows-cp1257",
    "windows-cp1258",
];

pub static ENCS: [Enc; 38] = [
    dec_end!("utf8", Kind::Utf8, text_encoding::utf8),
    dec_end!("utf16_be", Kind::U16 { be: true }, text_encoding::utf16_be),
    dec_end!("utf16_le", Kind::U16 { be: false }, text_encoding::utf16_le),
    dec_end!("utf32_be", Kind::U32 { be: true }, text_encoding::utf32_be),
    dec_end!("utf32_le", Kind::U32 { be: false }, text_encoding::utf32_le),
    {
        use text_encoding::big5_whatwg as m;
        Enc {
            name: "big5_whatwg",
            kind: Kind::Big5,
            enc: |i, o, e| m::encode_from_str(i, o, e),
            dec: |i, o, e| m::decode_to_str(i, o, e),
        }
    },
    dec_end!("shiftjis_whatwg", Kind::Sjis, text_encoding::shiftjis_whatwg),
    plain!("ascii", Kind::Ascii, sb::ascii),
    plain!("ibm_866", Kind::Sb(0), sb::ibm_866),
    plain!("iso_8859_1", Kind::Sb(1), sb::iso_8859_1),
    plain!("iso_8859_2", Kind::Sb(2), sb::iso_8859_2),
    plain!("iso_8859_3", Kind::Sb(3), sb::iso_8859_3),
    plain!("iso_8859_4", Kind::Sb(4), sb::iso_8859_4),
    plain!("iso_8859_5", Kind::Sb(5), sb::iso_8859_5),
    plain!("iso_8859_6", Kind::Sb(6), sb::iso_8859_6),
    plain!("iso_8859_7", Kind::Sb(7), sb::iso_8859_7),
    plain!("iso_8859_8", Kind::Sb(8), sb::iso_8859_8),
    plain!("iso_8859_9", Kind::Sb(9), sb::iso_8859_9),
    plain!("iso_8859_10", Kind::Sb(10), sb::iso_8859_10),
    plain!("iso_8859_11", Kind::Sb(11), sb::iso_8859_11),
    plain!("iso_8859_13", Kind::Sb(12), sb::iso_8859_13),
    plain!("iso_8859_14", Kind::Sb(13), sb::iso_8859_14),
    plain!("iso_8859_15", Kind::Sb(14), sb::iso_8859_15),
    plain!("iso_8859_16", Kind::Sb(15), sb::iso_8859_16),
    plain!("koi8_r", Kind::Sb(16), sb::koi8_r),
    plain!("koi8_u", Kind::Sb(17), sb::koi8_u),
    plain!("mac_roman", Kind::Sb(18), sb::mac_roman),
    plain!("mac_cyrillic", Kind::Sb(19), sb::mac_cyrillic),
    plain!("windows_874", Kind::Sb(20), sb::windows_874),
    plain!("windows_1250", Kind::Sb(21), sb::windows_1250),
    plain!("windows_1251", Kind::Sb(22), sb::windows_1251),
    plain!("windows_1252", Kind::Sb(23), sb::windows_1252),
    plain!("windows_1253", Kind::Sb(24), sb::windows_1253),
    plain!("windows_1254", Kind::Sb(25), sb::windows_1254),
    plain!("windows_1255", Kind::Sb(26), sb::windows_1255),
    plain!("windows_1256", Kind::Sb(27), sb::windows_1256),
    plain!("windows_1257", Kind::Sb(28), sb::windows_1257),
    plain!("windows_1258", Kind::Sb(29), sb::windows_1258),
];

pub const UTF8: usize = 0;
pub const U16BE: usize = 1;
pub const U16LE: usize = 2;
pub const U32BE: usize = 3;
pub const U32LE: usize = 4;
pub const BIG5: usize = 5;
pub const SJIS: usize = 6;
pub const ASCII: usize = 7;
pub const SB0: usize = 8;
pub const LATIN1: usize = 9;
pub const N: usize = 38;

pub fn by_name(n: &str) -> Option<usize> {
    ENCS.iter().position(|e| e.name == n)
}
/// Largest number of output bytes one encoding step can need.
pub fn max_enc_unit(e: usize) -> usize {
    match ENCS[e].kind {
        Kind::Utf8 | Kind::U16 { .. } | Kind::U32 { .. } => 4,
        Kind::Big5 | Kind::Sjis => 2,
        Kind::Ascii | Kind::Sb(_) => 1,
    }
}
