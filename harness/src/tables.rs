//! C21-C23: the table generators.  Each round writes generated mapping files
//! into a scratch copy of the crate, runs the generator scripts there, builds
//! the crate with the resulting tables, loads it, and compares every conversion
//! of one or two bytes and of every scalar value with what the mapping says.

use crate::run::{evidence, set_sub, write_replay, SubReport};
use std::collections::HashSet;
use std::ffi::{c_char, c_int, c_void, CString};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};
use tev::case::Case;
use tev::ctx::{Res, Target, CURRENT, IN_TARGET};
use tev::encs::{Kind, BIG5, ENCS, N, SB0, SB_REF_NAMES, SJIS};
use tev::model::{db_ref, dec_step_in, enc_step_in, refs, sb_ref, Refs, Step, BIG5_LAST, GRAPHEMES};
use tev::rng::{hash_bytes, mix, Src};

const WORKERS: usize = 8;
const VECTORS: [[&str; 4]; 2] = [
    [
        "big5_whatwg_test_decode_in.txt",
        "big5_whatwg_test_decode_out.txt",
        "big5_whatwg_test_encode_in.txt",
        "big5_whatwg_test_encode_out.txt",
    ],
    [
        "shiftjis_whatwg_test_decode_in.txt",
        "shiftjis_whatwg_test_decode_out.txt",
        "shiftjis_whatwg_test_encode_in.txt",
        "shiftjis_whatwg_test_encode_out.txt",
    ],
];

// ------------------------------------------------------------- built crates

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type CallFn = unsafe extern "C" fn(usize, u32, *const u8, usize, *mut u8, usize, u32, *mut [u64; 5]);

#[derive(Copy, Clone)]
struct Lib {
    f: CallFn,
}

/// Observation: kind (0 Ok, 1 Err, 2 panic, 3 wild), consumed or range start,
/// range end, character; output bytes are in the buffer given.
#[derive(Copy, Clone, Debug, PartialEq)]
struct Obs {
    kind: u64,
    pos: u64,
    end: u64,
    ch: u64,
    n: usize,
}
impl Obs {
    fn show(&self, out: &[u8]) -> String {
        match self.kind {
            0 => format!("Ok(consumed {}, output {:02X?})", self.pos, &out[..self.n.min(out.len()).min(32)]),
            1 if self.ch != 0 => format!("Err(U+{:04X}, range {}..{}, written {})", self.ch, self.pos, self.end, self.n),
            1 => format!("Err(range {}..{}, written {})", self.pos, self.end, self.n),
            2 => "panic".into(),
            _ => "a slice outside the buffer".into(),
        }
    }
}

impl Lib {
    fn open(p: &Path) -> Result<Lib, String> {
        let c = CString::new(p.to_str().unwrap()).unwrap();
        unsafe {
            let h = dlopen(c.as_ptr(), 2); // RTLD_NOW, local
            if h.is_null() {
                let e = dlerror();
                return Err(if e.is_null() { "dlopen".into() } else { std::ffi::CStr::from_ptr(e).to_string_lossy().into_owned() });
            }
            let init = dlsym(h, b"tev_init\0".as_ptr() as *const c_char);
            let call = dlsym(h, b"tev_call\0".as_ptr() as *const c_char);
            if init.is_null() || call.is_null() {
                return Err("dlsym".into());
            }
            let init: extern "C" fn() = std::mem::transmute(init);
            init();
            Ok(Lib { f: std::mem::transmute::<*mut c_void, CallFn>(call) })
        }
    }
    fn call(&self, e: usize, dec: bool, data: &[u8], out: &mut [u8]) -> Obs {
        let mut r = [0u64; 5];
        IN_TARGET.with(|f| f.set(true));
        tev::watch::enter();
        unsafe { (self.f)(e, dec as u32, data.as_ptr(), data.len(), out.as_mut_ptr(), out.len(), 1, &mut r) }
        tev::watch::leave();
        IN_TARGET.with(|f| f.set(false));
        Obs { kind: r[0], pos: r[1], n: r[2] as usize, end: r[3], ch: r[4] }
    }
}

fn expected(r: &Refs, e: usize, dec: bool, data: &[u8], out: &mut Vec<u8>) -> Obs {
    out.clear();
    let k = ENCS[e].kind;
    let mut pos = 0;
    loop {
        let s = if dec {
            dec_step_in(r, k, &data[pos..], true)
        } else {
            enc_step_in(r, k, std::str::from_utf8(&data[pos..]).unwrap(), true)
        };
        match s {
            Step::Emit { used, out: o } => {
                out.extend_from_slice(o.s());
                pos += used;
            }
            Step::Bad { used, .. } => {
                let ch = if dec {
                    0
                } else {
                    std::str::from_utf8(&data[pos..]).unwrap().chars().next().unwrap() as u64
                };
                return Obs { kind: 1, pos: pos as u64, end: (pos + used) as u64, ch, n: out.len() };
            }
            _ => return Obs { kind: 0, pos: pos as u64, end: 0, ch: 0, n: out.len() },
        }
    }
}

fn same(e: usize, dec: bool, a: &Obs, ao: &[u8], b: &Obs, bo: &[u8]) -> bool {
    a.kind == b.kind
        && a.pos == b.pos
        && a.n == b.n
        && a.ch == b.ch
        && a.n <= ao.len()
        && b.n <= bo.len()
        && ao[..a.n] == bo[..b.n]
        // The extent of an ill-formed UTF-8 range is C04's business.
        && (a.end == b.end || (dec && ENCS[e].kind == Kind::Utf8))
}

#[derive(Clone, Debug)]
struct Miss {
    enc: usize,
    dec: bool,
    input: Vec<u8>,
    msg: String,
}

fn one_input(lib: &Lib, r: &Refs, own: Option<&mut Target>, e: usize, dec: bool, data: &[u8], exp: &mut Vec<u8>) -> Result<(), Miss> {
    let mut buf = [0u8; 32];
    let want = expected(r, e, dec, data, exp);
    let got = lib.call(e, dec, data, &mut buf);
    let shown = || if dec { format!("decoding {:02X?}", data) } else { format!("encoding {}", show_text(data)) };
    if !same(e, dec, &want, exp, &got, &buf) {
        return Err(Miss {
            enc: e,
            dec,
            input: data.to_vec(),
            msg: format!("{}: {}: rebuilt crate gives {}, the mapping says {}", ENCS[e].name, shown(), got.show(&buf), want.show(exp)),
        });
    }
    if let Some(t) = own {
        let g = t.call(e, dec, data, true, 32, 0);
        let o = match g.res {
            Res::Ok { used } => Obs { kind: 0, pos: used as u64, end: 0, ch: 0, n: g.out.len() },
            Res::Err { ch, other, s, e, written } => {
                Obs { kind: 1, pos: s as u64, end: e as u64, ch: ch.map(|c| c as u64).unwrap_or(other as u64), n: written }
            },
            Res::Panic(_) => Obs { kind: 2, pos: 0, end: 0, ch: 0, n: 0 },
            Res::Wild(_) => Obs { kind: 3, pos: 0, end: 0, ch: 0, n: 0 },
        };
        if !same(e, dec, &o, &g.out, &got, &buf) {
            return Err(Miss {
                enc: e,
                dec,
                input: data.to_vec(),
                msg: format!("{}: {}: crate with regenerated tables gives {}, with the committed tables {}", ENCS[e].name, shown(), got.show(&buf), g.show()),
            });
        }
    }
    Ok(())
}

fn show_text(b: &[u8]) -> String {
    std::str::from_utf8(b).unwrap().chars().map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" ")
}

/// Every byte string of length 1 and 2, every scalar value.
fn compare(lib: &Lib, r: &Refs, e: usize, mut own: Option<&mut Target>) -> (u64, Result<(), Miss>) {
    let mut n = 0;
    let mut exp = Vec::new();
    for b in 0..=255u8 {
        n += 1;
        if let Err(m) = one_input(lib, r, own.as_deref_mut(), e, true, &[b], &mut exp) {
            return (n, Err(m));
        }
    }
    for x in 0..=0xFFFFu16 {
        n += 1;
        if let Err(m) = one_input(lib, r, own.as_deref_mut(), e, true, &x.to_be_bytes(), &mut exp) {
            return (n, Err(m));
        }
    }
    let mut u = [0u8; 4];
    for v in 0..=0x10_FFFFu32 {
        if let Some(c) = char::from_u32(v) {
            n += 1;
            if let Err(m) = one_input(lib, r, own.as_deref_mut(), e, false, c.encode_utf8(&mut u).as_bytes(), &mut exp) {
                return (n, Err(m));
            }
        }
    }
    if e == BIG5 {
        for a in ['\u{CA}', '\u{EA}', '\u{C8}', '\u{3007}'] {
            for b in ['\u{303}', '\u{304}', '\u{305}', '\u{30B}', '\u{30C}', '\u{30D}', 'a', '\u{CA}', '\u{EA}', '\u{4E00}'] {
                n += 1;
                if let Err(m) = one_input(lib, r, own.as_deref_mut(), e, false, format!("{}{}", a, b).as_bytes(), &mut exp) {
                    return (n, Err(m));
                }
            }
        }
    }
    (n, Ok(()))
}

// ---------------------------------------------------------------- scratch

fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    fs::create_dir_all(to)?;
    for e in fs::read_dir(from)? {
        let e = e?;
        let n = e.file_name();
        if n == "target" || n == ".git" || n == "__pycache__" {
            continue;
        }
        let t = e.file_type()?;
        if t.is_dir() {
            copy_tree(&e.path(), &to.join(&n))?;
        } else if t.is_file() {
            fs::copy(e.path(), to.join(&n))?;
        }
    }
    Ok(())
}

fn die(m: &str) -> ! {
    eprintln!("tev: {}", m);
    cleanup();
    std::process::exit(2)
}

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);
pub fn cleanup() {
    if let Ok(mut g) = SCRATCH.try_lock() {
        if let Some(p) = g.take() {
            let _ = fs::remove_dir_all(p);
        }
    }
}

struct Worker {
    dir: PathBuf,
    libs: usize,
}

/// What ran wrong, in the order of severity of the stage.
#[derive(Clone, Debug)]
enum Bad {
    Script(String),
    Build(String),
    Miss(Miss),
}
impl Bad {
    fn msg(&self) -> String {
        match self {
            Bad::Script(s) => format!("the generator script failed on a valid mapping: {}", s),
            Bad::Build(s) => format!("the crate does not build with the generated tables: {}", s),
            Bad::Miss(m) => m.msg.clone(),
        }
    }
}

fn last_lines(b: &[u8], n: usize) -> String {
    let s = String::from_utf8_lossy(b);
    let l: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    l[l.len().saturating_sub(n)..].join(" | ")
}

impl Worker {
    fn new(root: &Path, i: usize) -> Worker {
        let dir = root.join(format!("w{}", i));
        let repo = Path::new("/repo");
        if let Err(e) = copy_tree(repo, &dir.join("repo")) {
            die(&format!("cannot copy /repo: {}", e));
        }
        let src = dir.join("wrap/src");
        let ok = fs::create_dir_all(&src)
            .and_then(|_| fs::write(src.join("lib.rs"), include_str!("wrap_lib.rs.txt")))
            .and_then(|_| fs::write(src.join("encs.rs"), format!("#![allow(dead_code)]\n{}", include_str!("encs.rs").replacen("//! ", "// ", 1))))
            .and_then(|_| {
                fs::write(
                    dir.join("wrap/Cargo.toml"),
                    "[package]\nname = \"tev_wrap\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[lib]\ncrate-type = [\"cdylib\"]\n\n\
                     [dependencies]\ntext_encoding = { path = \"../repo\" }\n\n\
                     [profile.dev]\nopt-level = 1\ndebug = false\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n\n[workspace]\n",
                )
            });
        if let Err(e) = ok {
            die(&format!("cannot write the scratch crate: {}", e));
        }
        Worker { dir, libs: 0 }
    }
    fn sb_path(&self, slot: usize) -> PathBuf {
        self.dir.join(format!("repo/encoding_tables/single_byte/ascii_ext/{}.txt", SB_REF_NAMES[slot]))
    }
    fn sb_out(&self, slot: usize) -> PathBuf {
        self.dir.join(format!("repo/src/generated/single_byte/{}_tables.rs.inc", SB_REF_NAMES[slot]))
    }
    fn db_path(&self, e: usize) -> PathBuf {
        self.dir.join(format!("repo/encoding_tables/whatwg/{}", if e == BIG5 { "index-big5.txt" } else { "index-jis0208.txt" }))
    }
    fn path_of(&self, e: usize) -> PathBuf {
        if e == BIG5 || e == SJIS {
            self.db_path(e)
        } else {
            self.sb_path(e - SB0)
        }
    }
    fn put(&self, e: usize, text: &[u8]) {
        if let Err(x) = fs::write(self.path_of(e), text) {
            die(&format!("scratch: {}", x));
        }
    }
    /// Back to the tables and mappings of /repo.
    fn reset(&self) {
        for d in ["encoding_tables", "src", "tests"] {
            let from = Path::new("/repo").join(d);
            if from.exists() {
                if let Err(x) = copy_tree(&from, &self.dir.join("repo").join(d)) {
                    die(&format!("scratch: {}", x));
                }
            }
        }
    }
    /// The same, without anything that earlier runs may have left.
    fn fresh(&self) {
        for d in ["repo/encoding_tables", "repo/src/generated", "repo/tests/test_data", "tmp"] {
            let _ = fs::remove_dir_all(self.dir.join(d));
        }
        let _ = fs::create_dir_all(self.dir.join("tmp"));
        self.reset();
    }
    fn script(&self, which: usize) -> Result<(), String> {
        self.script_env(which, &[("PYTHONUTF8", "1")])
    }
    fn script_env(&self, which: usize, env: &[(&str, &str)]) -> Result<(), String> {
        self.script_at("repo", which, env)
    }
    fn script_at(&self, root: &str, which: usize, env: &[(&str, &str)]) -> Result<(), String> {
        let (d, f) = [
            ("single_byte", "generate_ascii_ext_tables.py"),
            ("whatwg", "generate_big5.py"),
            ("whatwg", "generate_shiftjis.py"),
        ][which];
        let o = Command::new("timeout")
            .args(["60", "python3", f])
            .current_dir(self.dir.join(root).join("encoding_tables").join(d))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("TMPDIR", self.dir.join("tmp"))
            .envs(env.iter().copied())
            .stdin(Stdio::null())
            .output();
        match o {
            Err(e) => die(&format!("cannot run python3: {}", e)),
            Ok(o) if o.status.success() => Ok(()),
            Ok(o) => Err(format!("{} {}: {}", f, o.status, last_lines(&o.stderr, 2))),
        }
    }
    fn script_for(&self, e: usize) -> Result<(), String> {
        self.script(if e == BIG5 { 1 } else if e == SJIS { 2 } else { 0 })
    }
    fn build(&mut self) -> Result<Lib, String> {
        let o = Command::new("timeout")
            .args(["200", "cargo", "build", "--offline", "-q", "-j", "2"])
            .current_dir(self.dir.join("wrap"))
            .env("CARGO_NET_OFFLINE", "true")
            .env_remove("CARGO_TARGET_DIR")
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .output();
        match o {
            Err(e) => die(&format!("cannot run cargo: {}", e)),
            Ok(o) if o.status.success() => {}
            Ok(o) => {
                let s = String::from_utf8_lossy(&o.stderr).into_owned();
                let errs: Vec<&str> = s.lines().filter(|l| l.starts_with("error")).take(3).collect();
                return Err(if errs.is_empty() { last_lines(&o.stderr, 3) } else { errs.join(" | ") });
            }
        }
        self.libs += 1;
        let so = self.dir.join(format!("lib{}.so", self.libs));
        if let Err(e) = fs::copy(self.dir.join("wrap/target/debug/libtev_wrap.so"), &so) {
            die(&format!("scratch: {}", e));
        }
        let l = Lib::open(&so);
        let _ = fs::remove_file(&so);
        match l {
            Ok(l) => Ok(l),
            Err(e) => die(&format!("cannot load the rebuilt crate: {}", e)),
        }
    }
    /// The generated test vectors against the rebuilt crate.
    fn vectors(&self, lib: &Lib, e: usize) -> (u64, Result<(), Miss>) {
        let v = &VECTORS[if e == BIG5 { 0 } else { 1 }];
        let mut bytes = 0;
        for (dec, i, o) in [(true, v[0], v[1]), (false, v[2], v[3])] {
            let d = self.dir.join("repo/tests/test_data/whatwg");
            let (inp, want) = match (fs::read(d.join(i)), fs::read(d.join(o))) {
                (Ok(a), Ok(b)) => (a, b),
                _ => die(&format!("{} or {} not found", i, o)),
            };
            bytes += inp.len() as u64;
            let miss = |msg: String| Miss { enc: e, dec, input: vec![], msg: format!("{}: test vectors {}: {}", ENCS[e].name, i, msg) };
            if !dec && std::str::from_utf8(&inp).is_err() {
                return (bytes, Err(miss("not UTF-8".into())));
            }
            let mut buf = vec![0u8; inp.len() * 4 + want.len() + 64];
            let g = lib.call(e, dec, &inp, &mut buf);
            if g.kind != 0 || g.pos != inp.len() as u64 {
                return (bytes, Err(miss(format!("conversion of the input file gives {}", g.show(&[])))));
            }
            // One line for each thing there is to test.
            let lines: HashSet<&[u8]> = inp.split(|b| *b == b'\n').collect();
            let index = parse_db(&fs::read_to_string(self.db_path(e)).unwrap_or_default());
            for b in (1..128u8).filter(|b| *b != b'\n') {
                if !lines.contains(&[b][..]) {
                    return (bytes, Err(miss(format!("{:02X} is missing", b))));
                }
            }
            for (ptr, c) in index {
                let (lead, trail) = (ptr / if e == BIG5 { 157 } else { 188 }, ptr % if e == BIG5 { 157 } else { 188 });
                let code = if e == BIG5 {
                    [(lead + 0x81) as u8, (trail + if trail < 0x3F { 0x40 } else { 0x62 }) as u8]
                } else {
                    [(lead + if lead < 0x1F { 0x81 } else { 0xC1 }) as u8, (trail + if trail < 0x3F { 0x40 } else { 0x41 }) as u8]
                };
                let ch = char::from_u32(c).unwrap_or(' ').to_string();
                if dec && !lines.contains(&code[..]) {
                    return (bytes, Err(miss(format!("pointer {} is missing", ptr))));
                }
                if !dec && !(e == SJIS && (8272..8836).contains(&ptr)) && !lines.contains(ch.as_bytes()) {
                    return (bytes, Err(miss(format!("U+{:04X} is missing", c))));
                }
            }
            if buf[..g.n] != want[..] {
                let at = buf[..g.n].iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.n.min(want.len()));
                let s = at.saturating_sub(4);
                return (
                    bytes,
                    Err(miss(format!(
                        "conversion and the output file differ at byte {}: {:02X?} / {:02X?}",
                        at,
                        &buf[s..g.n.min(at + 6)],
                        &want[s.min(want.len())..want.len().min(at + 6)]
                    ))),
                );
            }
        }
        (bytes, Ok(()))
    }
}

// ------------------------------------------------------------- generators

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, s.us(i + 1));
    }
}

const EDGE: [u32; 14] = [
    0x80, 0xA0, 0xFF, 0x7FF, 0x800, 0xFFC, 0x2550, 0xD7FF, 0xE000, 0xFFFC, 0xFFFE, 0xFFFF, 0x1_0000, 0x10_FFFF,
];

fn any_char(s: &mut Src, style: usize) -> char {
    loop {
        let v = match style {
            0 => s.range(0xA0, 0x17F),
            1 => s.range(0x80, 0xFFFF),
            2 => s.range(0x1_0000, 0x10_FFFF),
            3 => s.range(0x4E00, 0x4E00 + 40),
            4 => s.pick(&EDGE) as u64,
            5 => s.range(0x400, 0x45F),
            _ => s.range(0x80, 0x10_FFFF),
        };
        match char::from_u32(v as u32) {
            Some('\u{FFFD}') | None => {}
            Some(c) => return c,
        }
    }
}

fn gen_sb(s: &mut Src) -> ([Option<char>; 128], String) {
    let mut dec = [None; 128];
    let shape = s.weighted(&[3, 3, 1, 2, 1, 2]);
    let density = s.range(1, 9);
    let pool: Vec<char> = (0..s.range(1, 6)).map(|_| any_char(s, 1)).collect();
    let style = s.us(7);
    for b in 0..128 {
        let on = match shape {
            0 => true,
            1 => s.chance(density, 10),
            2 => false,
            3 => b >= 0x20,
            4 => s.chance(1, 40),
            _ => !(b as u64 % 16 < density),
        };
        if !on {
            continue;
        }
        dec[b] = Some(match s.weighted(&[12, 3, 2, 2, 1]) {
            0 => any_char(s, style),
            1 => {
                // A character that occurred before.
                let prev: Vec<char> = dec[..b].iter().flatten().copied().collect();
                if prev.is_empty() { any_char(s, 0) } else { s.pick(&prev) }
            }
            2 => s.pick(&pool),
            3 => any_char(s, 4),
            _ => {
                if s.chance(1, 2) {
                    (s.range(0x00, 0x7F) as u8) as char
                } else {
                    any_char(s, 6)
                }
            }
        });
    }
    let text = render_sb(s, &dec);
    (dec, text)
}

fn render_sb(s: &mut Src, dec: &[Option<char>; 128]) -> String {
    let sep = s.pick(&["\t", "\t", "    "]);
    let lower = s.chance(1, 8);
    let hex = |v: u32, w: usize| if lower { format!("0x{:0w$x}", v, w = w) } else { format!("0x{:0w$X}", v, w = w) };
    let undefined = s.us(4);
    let mut lines = vec![];
    let names = s.chance(3, 4);
    for b in 0..256u32 {
        let c = if b < 128 { Some(b as u8 as char) } else { dec[b as usize - 128] };
        match c {
            Some(c) => {
                let mut l = format!("{}{}{}", hex(b, 2), sep, hex(c as u32, 4));
                if names {
                    l += &format!("{}#{}", sep, s.pick(&["LATIN SMALL LETTER A", " 0x41 0x42", "<control>", "", "UNDEFINED"]));
                }
                lines.push(l);
            }
            None => match undefined {
                0 => {}
                1 => lines.push(format!("{}{}      {}#UNDEFINED", hex(b, 2), sep, sep)),
                2 => lines.push(hex(b, 2)),
                _ => {
                    if s.chance(1, 2) {
                        lines.push(format!("{}{}      {}#UNDEFINED", hex(b, 2), sep, sep))
                    }
                }
            },
        }
    }
    match s.us(5) {
        0 => shuffle(s, &mut lines),
        1 => lines.reverse(),
        2 => {
            let k = s.us(lines.len());
            lines.rotate_left(k);
        }
        _ => {}
    }
    for _ in 0..s.us(6) {
        let at = s.us(lines.len() + 1);
        let c = s.pick(&["#", "", "# comment", "#\tName: cp 0x80 0x41", "#0x80\t0x0041", "# 0x41\t0x0042\t#A"]);
        lines.insert(at, c.to_string());
    }
    let mut t = lines.join("\n");
    if s.chance(4, 5) {
        t.push('\n');
    }
    if s.chance(1, 8) {
        // As the Unicode consortium's older files have it.
        t = t.replace('\n', "\r\n");
    }
    t
}

fn parse_sb(text: &str) -> [Option<char>; 128] {
    let mut dec = [None; 128];
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() >= 2 && !p[0].starts_with('#') && !p[1].starts_with('#') {
            let h = |x: &str| u32::from_str_radix(x.trim_start_matches("0x"), 16).ok();
            if let (Some(b), Some(c)) = (h(p[0]), h(p[1]).and_then(char::from_u32)) {
                if (128..256).contains(&b) {
                    dec[b as usize - 128] = Some(c);
                }
            }
        }
    }
    dec
}

fn reserved(e: usize, ptr: u32) -> bool {
    if e == BIG5 {
        GRAPHEMES.iter().any(|g| g.0 == ptr)
    } else {
        (8836..=10715).contains(&ptr)
    }
}
fn db_char_ok(e: usize, c: u32) -> bool {
    if char::from_u32(c).is_none() || c < 0x80 || c == 0xFFFD {
        return false;
    }
    !(e == SJIS && (c == 0x80 || c == 0xA5 || c == 0x203E || c == 0x2212 || (0xFF61..=0xFF9F).contains(&c) || (0xE000..=0xE757).contains(&c)))
}

fn gen_db(s: &mut Src, e: usize) -> (Vec<(u32, u32)>, String) {
    let n: u32 = if e == BIG5 { 19782 } else { 11280 };
    let mut ptrs: Vec<u32> = (0..n).filter(|&p| !reserved(e, p)).collect();
    let keep = match s.us(4) {
        0 => s.range(5, 60) as usize,
        1 => s.range(200, 3000) as usize,
        2 => s.range(3000, 9000) as usize,
        _ => ptrs.len(),
    };
    match s.us(3) {
        // Spread, one block, or the top end.
        0 => {
            shuffle(s, &mut ptrs);
            ptrs.truncate(keep);
        }
        1 => {
            let k = s.us(ptrs.len());
            ptrs.rotate_left(k);
            ptrs.truncate(keep);
        }
        _ => {
            shuffle(s, &mut ptrs);
            ptrs.truncate(keep);
            for p in [0, 1, 62, 63, 156, 157, 187, 188, n - 1, n - 2, 1132, 1134, 8271, 8272, 8835, 10716, 18 * 188] {
                if s.chance(2, 3) && !reserved(e, p) {
                    ptrs.push(p);
                }
            }
        }
    }
    ptrs.sort();
    ptrs.dedup();
    let mut map: Vec<(u32, u32)> = vec![];
    let style = s.us(7);
    let pool: Vec<u32> = (0..24).map(|_| any_char(s, 1) as u32).collect();
    let dense = s.chance(1, 3);
    let base = 0x4E00 + s.us(3000) as u32;
    let dup = s.pick(&[1u64, 10, 60, 300]);
    for (i, &p) in ptrs.iter().enumerate() {
        let c = loop {
            let c = if s.chance(dup, 1000) {
                match s.us(4) {
                    0 => s.pick(&BIG5_LAST),
                    1 => s.pick(&pool),
                    _ if !map.is_empty() => map[s.us(map.len())].1,
                    _ => 0x2550,
                }
            } else if dense {
                base + i as u32
            } else {
                let st = if s.chance(1, 2) { style } else { 6 };
                any_char(s, st) as u32
            };
            if db_char_ok(e, c) {
                break c;
            }
        };
        map.push((p, c));
    }
    // Characters that the algorithms treat specially are in every index.
    let need: &[u32] = if e == BIG5 { &[0xCA, 0xEA] } else { &[0xFF0D] };
    for &c in need {
        if e == SJIS && !map.iter().any(|x| !(8272..=8835).contains(&x.0)) {
            map.push((5, 0x3042));
        }
        if !map.iter().any(|x| x.1 == c && !(e == SJIS && (8272..=8835).contains(&x.0))) {
            loop {
                let k = s.us(map.len());
                if !(e == SJIS && (8272..=8835).contains(&map[k].0)) && !need.contains(&map[k].1) {
                    map[k].1 = c;
                    break;
                }
                if map.len() <= need.len() {
                    let p = s.below(1000) as u32;
                    if !map.iter().any(|x| x.0 == p) {
                        map.push((p, c));
                        break;
                    }
                }
            }
        }
    }
    map.sort();
    let text = render_db(s, &map);
    (map, text)
}

fn render_db(s: &mut Src, map: &[(u32, u32)]) -> String {
    let style = s.us(8);
    let mut lines: Vec<String> = map
        .iter()
        .map(|&(p, c)| {
            let ch = char::from_u32(c).unwrap();
            let ch = if ch.is_control() || ch.is_whitespace() { '?' } else { ch };
            match style {
                0 => format!("{}\t0x{:04X}", p, c),
                1 => format!("{:>5}\t0x{:04x}\t{} (NAME {})  ", p, c, ch, p),
                2 => format!("{}    0x{:05X}    # {}", p, c, ch),
                _ => format!("{:>5}\t0x{:04X}\t{} (NAME {})", p, c, ch, p),
            }
        })
        .collect();
    match s.us(5) {
        0 => shuffle(s, &mut lines),
        1 => lines.reverse(),
        2 => {
            let k = s.us(lines.len());
            lines.rotate_left(k);
        }
        _ => {}
    }
    for _ in 0..s.us(4) {
        let at = s.us(lines.len() + 1);
        lines.insert(at, s.pick(&["#", "", "# comment", "# 12\t0x4E00\tX", "#12\t0x4E00", "   "]).to_string());
    }
    let mut t = String::from("# For details on index see the Encoding Standard\n#\n# Date: 2018-01-06\n\n");
    t += &lines.join("\n");
    if s.chance(4, 5) {
        t.push('\n');
    }
    if s.chance(1, 8) {
        t = t.replace('\n', "\r\n");
    }
    t
}

fn parse_db(text: &str) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() >= 2 && !p[0].starts_with('#') {
            if let (Ok(a), Ok(b)) = (p[0].parse(), u32::from_str_radix(p[1].trim_start_matches("0x"), 16)) {
                v.push((a, b));
            }
        }
    }
    v.sort();
    v
}

fn blank_refs() -> Refs {
    Refs {
        sb: (0..30).map(|_| sb_ref([None; 128])).collect(),
        big5: db_ref(&[], true),
        sjis: db_ref(&[], false),
    }
}
fn refs_for(e: usize, text: &str) -> Refs {
    let mut r = blank_refs();
    if e == BIG5 {
        r.big5 = db_ref(&parse_db(text), true);
    } else if e == SJIS {
        r.sjis = db_ref(&parse_db(text), false);
    } else {
        r.sb[e - SB0] = sb_ref(parse_sb(text));
    }
    r
}

/// One mapping (the others as committed): script, build, compare.
fn try_one(w: &mut Worker, e: usize, text: &str, vectors: bool) -> Result<(), Bad> {
    w.reset();
    w.put(e, text.as_bytes());
    w.script_for(e).map_err(Bad::Script)?;
    let lib = w.build().map_err(Bad::Build)?;
    if vectors {
        w.vectors(&lib, e).1.map_err(Bad::Miss)
    } else {
        compare(&lib, &refs_for(e, text), e, None).1.map_err(Bad::Miss)
    }
}

// -------------------------------------------------------------- shrinking

fn is_fixed(e: usize, l: &str) -> bool {
    // Lines that a valid mapping cannot do without.
    let p: Vec<&str> = l.split_whitespace().collect();
    if p.len() < 2 || p[0].starts_with('#') {
        return false;
    }
    if e == BIG5 || e == SJIS {
        let c = u32::from_str_radix(p[1].trim_start_matches("0x"), 16).unwrap_or(0);
        if e == BIG5 { c == 0xCA || c == 0xEA } else { c == 0xFF0D }
    } else {
        u32::from_str_radix(p[0].trim_start_matches("0x"), 16).map(|b| b < 128).unwrap_or(false)
    }
}

fn shrink(ws: &mut [Worker], e: usize, text: &str, vectors: bool, bad: Bad) -> (String, Bad) {
    let t0 = Instant::now();
    let mut best: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let mut best_bad = bad;
    let join = |v: &[String]| v.join("\n") + "\n";
    // Evaluate candidates in parallel; the first that fails wins.
    let mut eval = |cands: Vec<Vec<String>>| -> Option<(Vec<String>, Bad)> {
        for part in cands.chunks(WORKERS) {
            let res: Vec<Option<Bad>> = std::thread::scope(|sc| {
                let hs: Vec<_> = part
                    .iter()
                    .zip(ws.iter_mut())
                    .map(|(c, w)| sc.spawn(move || with_case(e, join(c).as_bytes(), || try_one(w, e, &join(c), vectors).err())))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
            });
            for (c, r) in part.iter().zip(res) {
                if let Some(b) = r {
                    return Some((c.clone(), b));
                }
            }
        }
        None
    };
    // Aimed: only the lines that mention what went wrong.
    if let Bad::Miss(m) = &best_bad {
        let mut chars: Vec<u32> = vec![];
        if !m.dec {
            chars.extend(String::from_utf8_lossy(&m.input).chars().map(|c| c as u32));
        }
        let keep = |l: &String, around: bool| {
            if is_fixed(e, l) {
                return true;
            }
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() < 2 || p[0].starts_with('#') || p[1].starts_with('#') {
                return false;
            }
            let c = u32::from_str_radix(p[1].trim_start_matches("0x"), 16).unwrap_or(0);
            if chars.contains(&c) {
                return true;
            }
            if m.dec && around {
                return if e >= SB0 {
                    m.input.iter().any(|b| u32::from_str_radix(p[0].trim_start_matches("0x"), 16) == Ok(*b as u32))
                } else if m.input.len() == 2 {
                    let q: u32 = p[0].parse().unwrap_or(0);
                    let b = if e == BIG5 { tev::model::big5_bytes(q) } else { tev::model::sjis_bytes(q) };
                    b.0 == m.input[0] && b.1 == m.input[1]
                } else {
                    false
                };
            }
            false
        };
        let c1: Vec<String> = best.iter().filter(|l| keep(l, true)).cloned().collect();
        if let Some((c, b)) = eval(vec![c1]) {
            best = c;
            best_bad = b;
        }
    }
    let mut parts = 4;
    while t0.elapsed() < Duration::from_secs(100) {
        let loose: Vec<usize> = (0..best.len()).filter(|&i| !is_fixed(e, &best[i])).collect();
        if loose.is_empty() {
            break;
        }
        parts = parts.min(loose.len());
        let size = (loose.len() + parts - 1) / parts;
        let mut cands = vec![];
        for ch in loose.chunks(size) {
            let drop: HashSet<usize> = ch.iter().copied().collect();
            if parts > 1 {
                cands.push((0..best.len()).filter(|i| is_fixed(e, &best[*i]) || drop.contains(i)).map(|i| best[i].clone()).collect());
            }
            cands.push((0..best.len()).filter(|i| !drop.contains(i)).map(|i| best[i].clone()).collect::<Vec<_>>());
        }
        match eval(cands) {
            Some((c, b)) => {
                best = c;
                best_bad = b;
                parts = 4;
            }
            None => {
                if parts >= loose.len() || parts >= 32 {
                    break;
                }
                parts *= 2;
            }
        }
    }
    (join(&best), best_bad)
}

// ---------------------------------------------------------------- running

fn with_case<R>(e: usize, data: &[u8], f: impl FnOnce() -> R) -> R {
    let mut c = Case::default();
    c.reset();
    c.enc = e;
    c.dec = true;
    c.data = data.to_vec();
    let old = CURRENT.with(|p| p.replace(&c as *const Case));
    let r = f();
    CURRENT.with(|p| p.set(old));
    r
}

struct Found {
    sub: &'static str,
    enc: usize,
    dec: bool,
    data: Vec<u8>,
    plan: Vec<u32>,
    bad: Bad,
}

fn report(id: &str, f: &Found) {
    let mut c = Case::default();
    c.reset();
    c.enc = f.enc;
    c.dec = f.dec;
    c.data = f.data.clone();
    c.plan = f.plan.clone();
    let msg = f.bad.msg();
    let path = write_replay(id, f.sub, &c, &msg);
    println!("{} {}: {}", id, f.sub, msg);
    if id != "C23" {
        let t = String::from_utf8_lossy(&f.data);
        let l: Vec<&str> = t.lines().filter(|l| !(is_fixed(f.enc, l) && f.enc >= SB0)).take(12).collect();
        println!("  mapping for {}: {} lines; beyond the fixed ones: {:?}", ENCS[f.enc].name, t.lines().count(), l);
    }
    println!("VIOLATION property={} replay={}", id, path);
}

fn lab() -> Vec<Worker> {
    let root = std::env::temp_dir().join(format!("tev-tables-{}-{}", std::process::id(), mix(Instant::now().elapsed().as_nanos() as u64) % 1000));
    if let Err(e) = fs::create_dir_all(&root) {
        die(&format!("scratch: {}", e));
    }
    *SCRATCH.lock().unwrap() = Some(root.clone());
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..WORKERS)
            .map(|i| {
                let root = &root;
                sc.spawn(move || Worker::new(root, i))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| die("scratch"))).collect()
    })
}

fn dup_count(v: impl Iterator<Item = u32>) -> usize {
    let mut seen = HashSet::new();
    v.filter(|c| !seen.insert(*c)).count()
}

#[derive(Default)]
struct Tally {
    maps: AtomicU64,
    obs: AtomicU64,
    vec_bytes: AtomicU64,
    seen: Mutex<HashSet<u64>>,
    labels: Mutex<Vec<(String, u64)>>,
    samples: Mutex<Vec<String>>,
}
impl Tally {
    fn label(&self, l: &str, n: u64) {
        let mut g = self.labels.lock().unwrap();
        match g.iter_mut().find(|x| x.0 == l) {
            Some(x) => x.1 += n,
            None => g.push((l.to_string(), n)),
        }
    }
    fn report(&self, name: &str, what: &str, complete: bool, secs: f64) -> SubReport {
        let mut labels = self.labels.lock().unwrap().clone();
        labels.sort();
        let r = SubReport {
            name: name.into(),
            what: what.into(),
            evals: self.maps.load(Ordering::Relaxed),
            nontrivial: self.seen.lock().unwrap().len() as u64,
            calls: self.obs.load(Ordering::Relaxed),
            complete,
            labels,
            secs,
        };
        println!("{}: {} cases, {} distinct non-trivial, {} calls, {:.1} s", name, r.evals, r.nontrivial, r.calls, secs);
        r
    }
}

/// Runs `rounds` rounds over the workers; the failure of the lowest round wins.
fn rounds(ws: &mut [Worker], n: usize, f: impl Fn(&mut Worker, usize) -> Option<Found> + Sync) -> Option<Found> {
    let next = AtomicUsize::new(0);
    let stop = AtomicUsize::new(usize::MAX);
    let mut found: Vec<(usize, Found)> = std::thread::scope(|sc| {
        let hs: Vec<_> = ws
            .iter_mut()
            .map(|w| {
                let (next, stop, f) = (&next, &stop, &f);
                sc.spawn(move || {
                    let mut out = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > stop.load(Ordering::SeqCst) {
                            return out;
                        }
                        if let Some(x) = f(w, i) {
                            stop.fetch_min(i, Ordering::SeqCst);
                            out.push((i, x));
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| die("harness error"))).collect()
    });
    found.sort_by_key(|x| x.0);
    found.into_iter().next().map(|x| x.1)
}

fn round_seed(seed: u64, id: &str, sub: &str, i: usize) -> u64 {
    mix(seed ^ hash_bytes(format!("{}/{}/{}", id, sub, i).as_bytes(), 11))
}

fn sb_label(t: &Tally, dec: &[Option<char>; 128]) {
    let d = dec.iter().flatten().count();
    let dups = dup_count(dec.iter().flatten().map(|c| *c as u32).chain(0..128));
    t.label("high bytes defined", d as u64);
    if d == 128 {
        t.label("mappings with every high byte defined", 1);
    } else if d == 0 {
        t.label("mappings with no high byte defined", 1);
    } else {
        t.label("mappings with some high bytes undefined", 1);
    }
    if dups > 0 {
        t.label("mappings with repeated characters", 1);
    }
    if dec.iter().flatten().any(|c| *c as u32 > 0xFFFF) {
        t.label("mappings with characters above U+FFFF", 1);
    }
    if dec[127].is_none() {
        t.label("mappings without byte FF", 1);
    }
}

fn c21_convert(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C21", "convert", i));
        let mut r = blank_refs();
        let mut texts = vec![];
        for slot in 0..30 {
            let (dec, text) = gen_sb(&mut s);
            debug_assert!(parse_sb(&text) == dec);
            t.maps.fetch_add(1, Ordering::Relaxed);
            sb_label(t, &dec);
            if dec.iter().any(|x| x.is_some()) {
                t.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), 1));
            }
            if slot == 3 && i < 6 {
                t.samples.lock().unwrap().push(format!(
                    "round {} mapping of {} lines, {} high bytes defined; lines 128..: {:?}",
                    i,
                    text.lines().count(),
                    dec.iter().flatten().count(),
                    text.lines().skip(128).take(6).collect::<Vec<_>>()
                ));
            }
            w.put(SB0 + slot, text.as_bytes());
            r.sb[slot] = sb_ref(dec);
            texts.push(text);
        }
        let bad = |enc: usize, bad: Bad| Some(Found { sub: "convert", enc, dec: true, data: texts[enc - SB0].clone().into_bytes(), plan: vec![], bad });
        if let Err(m) = w.script(0) {
            // Which one?
            for slot in 0..30 {
                w.reset();
                w.put(SB0 + slot, texts[slot].as_bytes());
                if let Err(m) = w.script(0) {
                    return bad(SB0 + slot, Bad::Script(m));
                }
            }
            return bad(SB0, Bad::Script(m));
        }
        let lib = match w.build() {
            Ok(l) => l,
            Err(m) => {
                for slot in 0..30 {
                    w.reset();
                    w.put(SB0 + slot, texts[slot].as_bytes());
                    if w.script(0).is_ok() {
                        if let Err(m) = w.build() {
                            return bad(SB0 + slot, Bad::Build(m));
                        }
                    }
                }
                return bad(SB0, Bad::Build(m));
            }
        };
        for slot in 0..30 {
            let (n, res) = with_case(SB0 + slot, texts[slot].as_bytes(), || compare(&lib, &r, SB0 + slot, None));
            t.obs.fetch_add(n, Ordering::Relaxed);
            if let Err(m) = res {
                return bad(SB0 + slot, Bad::Miss(m));
            }
        }
        None
    })?;
    let text = String::from_utf8(f.data.clone()).unwrap();
    let (small, b) = shrink(ws, f.enc, &text, false, f.bad.clone());
    f.data = small.into_bytes();
    f.bad = b;
    Some(f)
}

/// `fixed`: an ASCII byte, and 0 it is missing, 1 something else, 2 undefined.
fn gen_invalid(s: &mut Src, fixed: Option<(usize, usize)>) -> (String, &'static str) {
    let (_, text) = gen_sb(s);
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let at: Vec<usize> = (0..lines.len()).filter(|&i| is_fixed(SB0, &lines[i])).collect();
    let k = s.pick(&at);
    let byte_of = |l: &str| l.split_whitespace().next().and_then(|w| u32::from_str_radix(&w[2..], 16).ok());
    let k = match fixed {
        Some((b, _)) => at.iter().copied().find(|&i| byte_of(&lines[i]) == Some(b as u32)).unwrap_or(k),
        None => k,
    };
    let byte = lines[k].split_whitespace().next().unwrap().to_string();
    let kind = match fixed.map(|f| f.1).unwrap_or(s.us(6)) {
        0 => {
            lines.remove(k);
            "ASCII byte missing"
        }
        1 => {
            let b = u32::from_str_radix(&byte[2..], 16).unwrap();
            let c = loop {
                let c = if s.chance(1, 2) { s.below(128) as u32 } else { any_char(s, 6) as u32 };
                if c != b {
                    break c;
                }
            };
            lines[k] = format!("{}\t0x{:04X}\t#X", byte, c);
            "ASCII byte mapped to something else"
        }
        2 => {
            lines[k] = format!("{}\t      \t#UNDEFINED", byte);
            "ASCII byte undefined"
        }
        3 => {
            let keep = s.us(at.len());
            let drop: HashSet<usize> = at[keep..].iter().copied().collect();
            lines = lines.into_iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|x| x.1).collect();
            "several ASCII bytes missing"
        }
        4 => {
            lines.retain(|l| !is_fixed(SB0, l));
            "no ASCII bytes"
        }
        _ => {
            let j = loop {
                let j = s.pick(&at);
                if j != k {
                    break j;
                }
            };
            let b2 = lines[j].split_whitespace().next().unwrap().to_string();
            let (x, y) = (u32::from_str_radix(&byte[2..], 16).unwrap(), u32::from_str_radix(&b2[2..], 16).unwrap());
            lines[k] = format!("{}\t0x{:04X}\t#X", byte, y);
            lines[j] = format!("{}\t0x{:04X}\t#X", b2, x);
            "two ASCII bytes exchanged"
        }
    };
    (lines.join("\n") + "\n", kind)
}

/// Err: the script accepted it.
fn refused(w: &Worker, slot: usize, text: &str) -> Result<(), String> {
    w.reset();
    let before = fs::read(w.sb_out(slot)).unwrap_or_default();
    w.put(SB0 + slot, text.as_bytes());
    let r = w.script(0);
    let after = fs::read(w.sb_out(slot)).unwrap_or_default();
    if r.is_ok() && before != after {
        return Err("accepted: exit status 0 and a table was written".into());
    }
    Ok(())
}

fn c21_refuse(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C21", "refuse", i));
        let slot = s.us(30);
        let (text, kind) = gen_invalid(&mut s, if i < 384 { Some((i % 128, i / 128)) } else { None });
        t.maps.fetch_add(1, Ordering::Relaxed);
        t.obs.fetch_add(1, Ordering::Relaxed);
        t.label(kind, 1);
        t.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), slot as u64));
        match refused(w, slot, &text) {
            Ok(()) => None,
            Err(m) => Some(Found {
                sub: "refuse",
                enc: SB0 + slot,
                dec: true,
                data: text.into_bytes(),
                plan: vec![],
                bad: Bad::Miss(Miss { enc: SB0 + slot, dec: true, input: vec![], msg: format!("a mapping that does not extend ASCII ({}) is {}", kind, m) }),
            }),
        }
    })?;
    // Shrink: drop what is not ASCII, line by line.
    let mut lines: Vec<String> = String::from_utf8_lossy(&f.data).lines().map(|l| l.to_string()).collect();
    let c: Vec<String> = lines.iter().filter(|l| is_fixed(SB0, l)).cloned().collect();
    if refused(&ws[0], f.enc - SB0, &(c.join("\n") + "\n")).is_err() {
        lines = c;
    }
    f.data = (lines.join("\n") + "\n").into_bytes();
    Some(f)
}

fn c22_convert(ws: &mut [Worker], seed: u64, n: usize, t: &Tally, tv: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C22", "convert", i));
        let mut r = blank_refs();
        let mut texts = vec![];
        for e in [BIG5, SJIS] {
            // The last round uses the indexes of the repository.
            let (map, text) = if i + 1 == n {
                let text = fs::read_to_string(Path::new("/repo/encoding_tables/whatwg").join(w.db_path(e).file_name().unwrap()))
                    .unwrap_or_else(|e| die(&format!("index file: {}", e)));
                (parse_db(&text), text)
            } else {
                gen_db(&mut s, e)
            };
            t.maps.fetch_add(1, Ordering::Relaxed);
            tv.maps.fetch_add(1, Ordering::Relaxed);
            let d = dup_count(map.iter().map(|x| x.1));
            t.label("pointers listed", map.len() as u64);
            t.label("pointers whose character is listed before", d as u64);
            t.label(
                match map.len() {
                    0..=99 => "indexes below 100 pointers",
                    100..=4999 => "indexes of 100-4999 pointers",
                    _ => "indexes of 5000 pointers or more",
                },
                1,
            );
            if map.iter().any(|x| x.1 > 0xFFFF) {
                t.label("indexes with characters above U+FFFF", 1);
            }
            if map.len() >= 5 {
                t.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), 1));
                tv.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), 1));
            }
            if i < 4 {
                t.samples.lock().unwrap().push(format!(
                    "round {} {} index of {} pointers, {} repeated; {:?}",
                    i,
                    ENCS[e].name,
                    map.len(),
                    d,
                    text.lines().skip(4).take(5).collect::<Vec<_>>()
                ));
            }
            if e == BIG5 {
                r.big5 = db_ref(&map, true);
            } else {
                r.sjis = db_ref(&map, false);
            }
            w.put(e, text.as_bytes());
            texts.push(text);
        }
        let text_of = |e: usize| texts[if e == BIG5 { 0 } else { 1 }].clone();
        let bad = |sub: &'static str, enc: usize, bad: Bad| Some(Found { sub, enc, dec: true, data: text_of(enc).into_bytes(), plan: vec![], bad });
        for e in [BIG5, SJIS] {
            if let Err(m) = w.script_for(e) {
                return bad("convert", e, Bad::Script(m));
            }
        }
        let lib = match w.build() {
            Ok(l) => l,
            Err(m) => {
                for e in [BIG5, SJIS] {
                    w.reset();
                    w.put(e, text_of(e).as_bytes());
                    if w.script_for(e).is_ok() {
                        if let Err(m) = w.build() {
                            return bad("convert", e, Bad::Build(m));
                        }
                    }
                }
                return bad("convert", BIG5, Bad::Build(m));
            }
        };
        for e in [BIG5, SJIS] {
            let (n, res) = with_case(e, text_of(e).as_bytes(), || compare(&lib, &r, e, None));
            t.obs.fetch_add(n, Ordering::Relaxed);
            if let Err(m) = res {
                return bad("convert", e, Bad::Miss(m));
            }
            let (n, res) = with_case(e, text_of(e).as_bytes(), || w.vectors(&lib, e));
            tv.obs.fetch_add(2, Ordering::Relaxed);
            tv.vec_bytes.fetch_add(n, Ordering::Relaxed);
            if let Err(m) = res {
                return bad("vectors", e, Bad::Miss(m));
            }
        }
        None
    })?;
    let text = String::from_utf8(f.data.clone()).unwrap();
    let (small, b) = shrink(ws, f.enc, &text, f.sub == "vectors", f.bad.clone());
    f.data = small.into_bytes();
    f.bad = b;
    Some(f)
}

fn regenerate(w: &mut Worker) -> Result<Lib, Bad> {
    w.reset();
    for k in 0..3 {
        w.script(k).map_err(Bad::Script)?;
    }
    w.build().map_err(Bad::Build)
}

fn c23(ws: &mut [Worker], t: &Tally) -> Option<Found> {
    let lib = match regenerate(&mut ws[0]) {
        Ok(l) => l,
        Err(b) => return Some(Found { sub: "regenerate", enc: 0, dec: true, data: vec![], plan: vec![], bad: b }),
    };
    let next = AtomicUsize::new(0);
    let miss: Mutex<Vec<Miss>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..WORKERS {
            sc.spawn(|| {
                let mut own = Target::new();
                loop {
                    // The slower multi-byte ones first.
                    let e = next.fetch_add(1, Ordering::SeqCst);
                    if e >= N {
                        return;
                    }
                    let (n, res) = with_case(e, b"", || compare(&lib, refs(), e, Some(&mut own)));
                    t.maps.fetch_add(n, Ordering::Relaxed);
                    t.obs.fetch_add(2 * n, Ordering::Relaxed);
                    t.label(ENCS[e].name, n);
                    if let Err(m) = res {
                        miss.lock().unwrap().push(m);
                    }
                }
            });
        }
    });
    let mut m = miss.into_inner().unwrap();
    m.sort_by_key(|x| x.enc);
    m.into_iter().next().map(|m| Found { sub: "regenerate", enc: m.enc, dec: m.dec, data: m.input.clone(), plan: vec![], bad: Bad::Miss(m) })
}

// ---------------------------------------------------------------- C27

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(r) = fs::read_dir(d) {
        for e in r.flatten() {
            match e.file_type() {
                Ok(t) if t.is_dir() => walk(&e.path(), out),
                Ok(t) if t.is_file() => out.push(e.path()),
                _ => {}
            }
        }
    }
}
/// The files a generator may write.
fn outputs(w: &Worker) -> Vec<PathBuf> {
    let mut v = vec![];
    walk(&w.dir.join("repo/src/generated"), &mut v);
    walk(&w.dir.join("repo/tests/test_data"), &mut v);
    v.sort();
    v
}
fn enc_of(p: &Path) -> usize {
    let n = p.file_name().unwrap().to_string_lossy().into_owned();
    if n.contains("big5") {
        BIG5
    } else if n.contains("jis") {
        SJIS
    } else {
        // The longest name: iso-8859-1 is also the start of iso-8859-11.
        let best = (0..30).filter(|&i| n.starts_with(SB_REF_NAMES[i])).max_by_key(|&i| SB_REF_NAMES[i].len());
        SB0 + best.unwrap_or(0)
    }
}

/// Shifts the time of day by some 40 days for a script that asks for it.
const CLOCK: &str = r#"
#![allow(non_upper_case_globals)]
extern "C" { fn syscall(n: i64, ...) -> i64; }
const SHIFT: i64 = 40 * 86400 + 5 * 3600 + 67;
#[cfg(target_arch = "x86_64")] const NR: i64 = 228;
#[cfg(target_arch = "aarch64")] const NR: i64 = 113;
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    let r = syscall(NR, id as i64, ts) as i32;
    if r == 0 && (id == 0 || id == 5) { (*ts)[0] += SHIFT; }
    r
}
#[no_mangle] pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    if !t.is_null() { *t = ts[0]; }
    ts[0]
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _z: *mut u8) -> i32 {
    let mut ts = [0i64; 2];
    let r = clock_gettime(0, &mut ts);
    if !tv.is_null() { *tv = [ts[0], ts[1] / 1000]; }
    r
}
"#;
static CLOCK_SO: OnceLock<Option<String>> = OnceLock::new();
fn clock_so(w: &Worker) -> Option<&'static str> {
    CLOCK_SO.get_or_init(|| preload(w, "clock", CLOCK)).as_deref()
}

/// Ends the process, or makes the disk full, at a chosen write to a file.
const FAULT: &str = r#"
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn getenv(n: *const u8) -> *const u8;
    fn _exit(r: i32) -> !;
    fn __errno_location() -> *mut i32;
    fn creat(p: *const u8, m: u32) -> i32;
}
#[cfg(target_arch = "x86_64")] const NR: i64 = 1;
#[cfg(target_arch = "aarch64")] const NR: i64 = 64;
static COUNT: AtomicU64 = AtomicU64::new(0);
unsafe fn num(n: &[u8]) -> u64 {
    let mut p = getenv(n.as_ptr());
    let mut v = 0;
    if p.is_null() { return 0; }
    while *p >= b'0' && *p <= b'9' { v = v * 10 + (*p - b'0') as u64; p = p.add(1); }
    v
}
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd > 2 {
        let at = num(b"TEV_AT\0");
        let how = num(b"TEV_HOW\0");
        let c = COUNT.fetch_add(1, SeqCst) + 1;
        if at > 0 && c >= at {
            let m = getenv(b"TEV_MARK\0".as_ptr());
            if !m.is_null() { creat(m, 0o644); }
            if how == 2 {
                *__errno_location() = 28;
                return -1;
            }
            if how == 1 { syscall(NR, fd as i64, b, n / 2); }
            _exit(97);
        }
    }
    syscall(NR, fd as i64, b, n) as isize
}
"#;
static FAULT_SO: OnceLock<Option<String>> = OnceLock::new();
fn fault_so(w: &Worker) -> Option<&'static str> {
    FAULT_SO.get_or_init(|| preload(w, "fault", FAULT)).as_deref()
}
fn preload(w: &Worker, name: &str, text: &str) -> Option<String> {
    let d = w.dir.parent().unwrap();
    let (rs, so) = (d.join(format!("{}.rs", name)), d.join(format!("lib{}.so", name)));
    fs::write(&rs, text).ok()?;
    let o = Command::new("timeout").args(["100", "rustc", "--edition", "2018", "--crate-type", "cdylib", "-O", "-o"]).arg(&so).arg(&rs).output();
    match o {
        Ok(o) if o.status.success() => Some(so.to_string_lossy().into_owned()),
        _ => None,
    }
}

const STALE: &[u8] = b"stale\n";
const BARE: [(&str, &str); 4] = [("LC_ALL", "C"), ("PYTHONUTF8", "0"), ("PYTHONCOERCECLOCALE", "0"), ("PYTHONHASHSEED", "4242")];

/// Runs the scripts five times on the mappings in place; Err names the
/// encoding whose files differ.
fn reproduce(w: &Worker, which: &[usize], t: Option<&Tally>) -> Result<(), (usize, Bad)> {
    let any = |k: usize| [SB0, BIG5, SJIS][k];
    let run = |root: &str, how: &str, env: &[(&str, &str)]| -> Result<(), (usize, Bad)> {
        for &k in which {
            w.script_at(root, k, env)
                .map_err(|m| (any(k), Bad::Miss(Miss { enc: any(k), dec: true, input: vec![], msg: format!("{}: {}", how, m) })))?;
        }
        Ok(())
    };
    let files = outputs(w);
    let fill = |n: usize| {
        for f in &files {
            if let Err(e) = fs::write(f, STALE.repeat(n)) {
                die(&format!("scratch: {}", e));
            }
        }
    };
    let take = || -> Vec<Option<Vec<u8>>> { files.iter().map(|f| fs::read(f).ok()).collect() };
    // First with none of the files there: what appears is what is generated.
    for f in &files {
        let _ = fs::remove_file(f);
    }
    // A failure here is C21's and C22's business.
    for &k in which {
        w.script_env(k, &[("PYTHONUTF8", "1"), ("PYTHONHASHSEED", "0")]).map_err(|m| (any(k), Bad::Script(m)))?;
    }
    let first = take();
    let mut later = vec![];
    fill(1);
    let mut env = vec![("PYTHONUTF8", "1"), ("PYTHONHASHSEED", "1"), ("USER", "tev"), ("HOME", "/")];
    if let Some(so) = clock_so(w) {
        env.push(("LD_PRELOAD", so));
    }
    run("repo", "the generator fails with another clock", &env)?;
    later.push(("at another time, over shorter files", take()));
    fill(600_000);
    // In another directory.
    let (here, there) = (w.dir.join("repo"), w.dir.join("moved away"));
    if let Err(e) = fs::rename(&here, &there) {
        die(&format!("scratch: {}", e));
    }
    let r = run("moved away", "the generator fails with another locale, hash seed and directory", &BARE);
    if let Err(e) = fs::rename(&there, &here) {
        die(&format!("scratch: {}", e));
    }
    r?;
    later.push(("in another environment and directory, over longer files", take()));
    run("repo", "the generator fails when run again", &[("PYTHONUTF8", "1"), ("PYTHONHASHSEED", "77"), ("TZ", "Asia/Tokyo")])?;
    later.push(("a second time", take()));
    // All scripts at the same time, each with the directory of its own.
    if which.len() > 1 || t.is_none() {
        let failed: Vec<(usize, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3).map(|k| sc.spawn(move || (k, w.script_at("repo", k, &[("PYTHONUTF8", "1")])))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| die("harness error"))).filter_map(|(k, r)| r.err().map(|m| (k, m))).collect()
        });
        if let Some((k, m)) = failed.into_iter().find(|x| which.contains(&x.0)) {
            let msg = format!("the generator fails when the others run too: {}", m);
            return Err((any(k), Bad::Miss(Miss { enc: any(k), dec: true, input: vec![], msg })));
        }
        later.push(("while the other scripts run", take()));
    }
    for (i, f) in files.iter().enumerate() {
        let a = match &first[i] {
            Some(a) => a,
            None => continue,
        };
        if let Some(t) = t {
            t.obs.fetch_add(later.len() as u64, Ordering::Relaxed);
        }
        for (how, x) in &later {
            let x = x[i].as_deref().unwrap_or(&[]);
            if x != &a[..] {
                let at = a.iter().zip(x.iter()).take_while(|(p, q)| p == q).count();
                let e = enc_of(f);
                let cut = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(10).min(v.len())..v.len().min(at + 30)]).into_owned();
                let msg = format!(
                    "{}: generated {}, the file differs at byte {}: {:?} / {:?}",
                    f.file_name().unwrap().to_string_lossy(),
                    how,
                    at,
                    cut(a),
                    cut(x)
                );
                return Err((e, Bad::Miss(Miss { enc: e, dec: true, input: vec![], msg })));
            }
        }
    }
    Ok(())
}

fn script_no(e: usize) -> usize {
    if e == BIG5 {
        1
    } else if e == SJIS {
        2
    } else {
        0
    }
}

fn reproduce_one(w: &Worker, e: usize, text: &str) -> Result<(), Bad> {
    w.fresh();
    w.put(e, text.as_bytes());
    match reproduce(w, &[script_no(e)], None) {
        Err((_, Bad::Script(_))) | Ok(()) => Ok(()),
        Err((_, b)) => Err(b),
    }
}

fn c27_reproduce(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C27", "reproduce", i));
        w.fresh();
        let mut texts: Vec<(usize, String)> = vec![];
        if i + 1 < n {
            // The last round uses the repository's files.
            for slot in 0..30 {
                texts.push((SB0 + slot, gen_sb(&mut s).1));
            }
            for e in [BIG5, SJIS] {
                texts.push((e, gen_db(&mut s, e).1));
            }
        }
        for (e, x) in &texts {
            w.put(*e, x.as_bytes());
            t.seen.lock().unwrap().insert(hash_bytes(x.as_bytes(), *e as u64));
        }
        t.maps.fetch_add(32, Ordering::Relaxed);
        match reproduce(w, &[0, 1, 2], Some(t)) {
            Ok(()) => None,
            Err((_, Bad::Script(m))) => {
                // Not this property; nothing could be compared.
                t.label("rounds in which a script failed", 1);
                let _ = m;
                None
            }
            Err((e, bad)) => {
                let text = match texts.iter().find(|x| x.0 == e) {
                    Some(x) => x.1.clone(),
                    None => fs::read_to_string(w.path_of(e)).unwrap_or_default(),
                };
                Some(Found { sub: "reproduce", enc: e, dec: true, data: text.into_bytes(), plan: vec![], bad })
            }
        }
    })?;
    // Shrink by lines; what a mapping must contain stays.
    let lines: Vec<String> = String::from_utf8_lossy(&f.data).lines().map(|l| l.to_string()).collect();
    let (w, e) = (&ws[0], f.enc);
    let mut bad = None;
    let lines = drop_lines(lines, 40, |l| is_fixed(e, l), |c| match reproduce_one(w, e, c) {
        Err(b) => {
            bad = Some(b);
            true
        }
        Ok(()) => false,
    });
    if let Some(b) = bad {
        f.bad = b;
    }
    f.data = (lines.join("\n") + "\n").into_bytes();
    Some(f)
}

/// A run that is cut off does not change what a later run writes; one that
/// cannot write does not claim to have succeeded.  `plan`: the write at which
/// it happens, how (0: ends before it, 1: ends in the middle of it, 2: no space
/// from there on), and whether the earlier run has the repository's mapping
/// instead of the same one.  Ok(true): it did happen.
fn interrupted(w: &Worker, e: usize, text: &str, plan: &[u32]) -> Result<bool, String> {
    let (at, how, other) = (plan[0], plan[1], plan[2] != 0);
    let so = match fault_so(w) {
        Some(so) => so,
        None => return Ok(false),
    };
    let k = script_no(e);
    let take = || -> Vec<(PathBuf, Vec<u8>)> {
        let v = outputs(w);
        v.into_iter().map(|f| (f.strip_prefix(&w.dir).unwrap().to_path_buf(), fs::read(&f).unwrap_or_default())).collect()
    };
    w.fresh();
    let own = fs::read(w.path_of(e)).unwrap_or_default();
    w.put(e, text.as_bytes());
    if w.script(k).is_err() {
        return Ok(false);
    }
    let clean = take();
    w.fresh();
    if other {
        w.put(e, &own);
    } else {
        w.put(e, text.as_bytes());
    }
    let mark = w.dir.join("tmp-mark");
    let _ = fs::remove_file(&mark);
    let (a, h, m) = (at.to_string(), how.to_string(), mark.to_string_lossy().into_owned());
    let r = w.script_env(k, &[("PYTHONUTF8", "1"), ("LD_PRELOAD", so), ("TEV_AT", &a), ("TEV_HOW", &h), ("TEV_MARK", &m)]);
    if !mark.exists() {
        return Ok(false);
    }
    if how == 2 && r.is_ok() {
        return Err(format!("{}: no space was left at write {}, and the script ended with status 0", ENCS[e].name, at));
    }
    w.put(e, text.as_bytes());
    if let Err(m) = w.script(k) {
        return Err(format!("{}: the script fails after a run that was interrupted at write {}: {}", ENCS[e].name, at, m));
    }
    let now = take();
    for (p, b) in &clean {
        match now.iter().find(|x| x.0 == *p) {
            Some(x) if x.1 == *b => {}
            x => {
                return Err(format!(
                    "{}: after a run that was interrupted at write {}, a complete run makes {} other than a clean one: {} / {} bytes",
                    ENCS[enc_of(p)].name,
                    at,
                    p.file_name().unwrap().to_string_lossy(),
                    x.map_or(0, |x| x.1.len()),
                    b.len()
                ))
            }
        }
    }
    Ok(true)
}

fn c27_interrupted(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C27", "interrupted", i));
        let e = match s.us(3) {
            0 => SB0 + s.us(30),
            1 => BIG5,
            _ => SJIS,
        };
        let text = match (s.us(3), e) {
            (0, _) => fs::read_to_string(Path::new("/repo").join(w.path_of(e).strip_prefix(w.dir.join("repo")).unwrap())).unwrap_or_default(),
            (_, BIG5) | (_, SJIS) => gen_db(&mut s, e).1,
            _ => gen_sb(&mut s).1,
        };
        let at = if s.chance(1, 2) { 1 + s.us(8) } else { 1 + s.us(120) };
        let plan = vec![at as u32, s.us(3) as u32, s.us(2) as u32];
        t.maps.fetch_add(1, Ordering::Relaxed);
        t.obs.fetch_add(3, Ordering::Relaxed);
        match interrupted(w, e, &text, &plan) {
            Ok(fired) => {
                t.label(["ended before a write", "ended within a write", "no space left"][plan[1] as usize], fired as u64);
                t.label("the run ended before that write", !fired as u64);
                if fired {
                    t.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), (e as u64) << 32 | (plan[0] as u64) << 4 | (plan[1] as u64) << 1 | plan[2] as u64));
                }
                None
            }
            Err(m) => Some(Found {
                sub: "interrupted",
                enc: e,
                dec: true,
                data: text.into_bytes(),
                plan,
                bad: Bad::Miss(Miss { enc: e, dec: true, input: vec![], msg: m }),
            }),
        }
    })?;
    let (w, e) = (&ws[0], f.enc);
    let lines: Vec<String> = String::from_utf8_lossy(&f.data).lines().map(|l| l.to_string()).collect();
    let lines = drop_lines(lines, 40, |l| is_fixed(e, l), |c| interrupted(w, e, c, &f.plan).is_err());
    f.data = (lines.join("\n") + "\n").into_bytes();
    Some(f)
}

/// A mapping the script does not accept leaves its table as it was.  No data
/// stands for no file.
fn intact(w: &Worker, e: usize, data: &[u8]) -> Result<bool, String> {
    w.reset();
    w.put(e, data);
    if data.is_empty() {
        let _ = fs::remove_file(w.path_of(e));
    }
    let mine: Vec<PathBuf> = outputs(w).into_iter().filter(|p| enc_of(p) == e).collect();
    let before: Vec<Vec<u8>> = mine.iter().map(|p| fs::read(p).unwrap_or_default()).collect();
    if w.script_for(e).is_ok() {
        return Ok(false);
    }
    for (p, b) in mine.iter().zip(&before) {
        let a = fs::read(p).unwrap_or_default();
        if a != *b {
            return Err(format!(
                "{}: the script refused the mapping, but {} changed from {} to {} bytes",
                ENCS[e].name,
                p.file_name().unwrap().to_string_lossy(),
                b.len(),
                a.len()
            ));
        }
    }
    Ok(true)
}

fn c27_intact(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C27", "intact", i));
        let (e, data, kind) = match s.us(4) {
            0 => {
                let e = SB0 + s.us(30);
                let (x, k) = gen_invalid(&mut s, if i < 384 { Some((i % 128, i / 128)) } else { None });
                (e, x.into_bytes(), k)
            }
            1 => gen_odd(&mut s),
            _ => {
                let (e, x, k) = gen_malformed(&mut s);
                (e, x.into_bytes(), k)
            }
        };
        t.maps.fetch_add(1, Ordering::Relaxed);
        t.obs.fetch_add(1, Ordering::Relaxed);
        t.label(kind, 1);
        match intact(w, e, &data) {
            Ok(refused) => {
                if refused {
                    t.seen.lock().unwrap().insert(hash_bytes(&data, e as u64));
                }
                None
            }
            Err(m) => Some(Found {
                sub: "intact",
                enc: e,
                dec: true,
                data,
                plan: vec![],
                bad: Bad::Miss(Miss { enc: e, dec: true, input: vec![], msg: m }),
            }),
        }
    })?;
    let (w, e) = (&ws[0], f.enc);
    let text = match std::str::from_utf8(&f.data) {
        Ok(t) if !t.is_empty() => t,
        _ => return Some(f),
    };
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let lines = drop_lines(lines, 60, |l| is_fixed(e, l), |c| intact(w, e, c.as_bytes()).is_err());
    f.data = (lines.join("\n") + "\n").into_bytes();
    Some(f)
}

/// What a script may accept or not: either is fine for C27, as long as what it
/// refuses leaves the files alone.
fn gen_odd(s: &mut Src) -> (usize, Vec<u8>, &'static str) {
    let e = if s.chance(1, 2) { SB0 + s.us(30) } else { s.pick(&[BIG5, SJIS]) };
    let single = e != BIG5 && e != SJIS;
    let text = if single { gen_sb(s).1 } else { gen_db(s, e).1 };
    let mut d = text.into_bytes();
    let k = s.us(if single { 9 } else { 7 });
    let kind = match k {
        0 => {
            d.clear();
            "no file"
        }
        1 => {
            let at = s.us(d.len() + 1);
            d.insert(at, s.pick(&[0xFF, 0x80, 0xC3, 0x00, 0x1A, 0x0C]));
            "a stray byte"
        }
        2 => {
            d.splice(0..0, [0xEF, 0xBB, 0xBF]);
            "byte order mark"
        }
        3 => {
            let n = s.us(d.len());
            d.truncate(n.max(1));
            "file cut off"
        }
        4 => {
            d = b"# nothing\n".to_vec();
            "comments alone"
        }
        5 => {
            d.extend_from_slice(if single { b"\n0x99\t0x00CA+0x0304\n" } else { b"\n12\t0x00CA+0x0304\n" });
            "two characters on a line"
        }
        6 => {
            let x = String::from_utf8_lossy(&d).replace('\n', "\r\n");
            d = x.into_bytes();
            "CR LF"
        }
        7 => {
            d = (0..128).flat_map(|i| format!("0x{:02X}\t0x{:04X}\n", i, i).into_bytes()).collect();
            "ASCII alone"
        }
        _ => {
            d.extend_from_slice(b"\n0xFF\t0xFFFD\n");
            "U+FFFD mapped"
        }
    };
    (e, d, kind)
}

/// A mapping or index with something in it that cannot be right.
fn gen_malformed(s: &mut Src) -> (usize, String, &'static str) {
    let e = if s.chance(1, 2) { SB0 + s.us(30) } else { s.pick(&[BIG5, SJIS]) };
    let single = e != BIG5 && e != SJIS;
    let text = if single { gen_sb(s).1 } else { gen_db(s, e).1 };
    let kind = s.us(5);
    if kind == 4 {
        let x = garble(s, &text);
        return (e, x, if single { "unreadable line" } else { "unreadable line in an index" });
    }
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let radix = if single { 16 } else { 10 };
    let key = |l: &str| -> Option<u32> {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 || p[0].starts_with('#') || p[1].starts_with('#') {
            return None;
        }
        u32::from_str_radix(if single { p[0].get(2..)? } else { p[0] }, radix).ok()
    };
    let keys: Vec<u32> = lines.iter().filter_map(|l| key(l)).collect();
    let show = |k: u32| if single { format!("0x{:02X}", k) } else { format!("{}", k) };
    let limit: u32 = if single { 256 } else if e == BIG5 { 19782 } else { 11280 };
    let ok_char = |s: &mut Src| loop {
        let c = any_char(s, 6) as u32;
        if c >= 0x80 && c != 0xFFFD {
            break c;
        }
    };
    let at = s.us(lines.len() + 1);
    match kind {
        0 => {
            let k = match s.us(4) {
                0 => limit,
                1 => limit + s.range(0, 40) as u32,
                2 => limit + s.range(0, 3 * limit as u64) as u32,
                _ => s.pick(&[511, 0xFFFF, 0x10000, 70000, 100_000]).max(limit),
            };
            let c = ok_char(s);
            let k = if s.chance(1, 8) { format!("-{}", if single { "0x1" } else { "1" }) } else { show(k) };
            lines.insert(at, format!("{}\t0x{:04X}", k, c));
            (e, lines.join("\n") + "\n", if single { "byte out of range" } else { "pointer out of range" })
        }
        1 => {
            // The first and the last of the file more often.
            let k = match s.us(4) {
                _ if keys.is_empty() => 0,
                0 => keys[0],
                1 => keys[keys.len() - 1],
                2 => *keys.iter().max().unwrap(),
                _ => s.pick(&keys),
            };
            let had = keys.contains(&k);
            // With another character, or the same line once more.
            let again = if s.chance(1, 3) { lines.iter().find(|l| key(l) == Some(k)).cloned() } else { None };
            let c = ok_char(s);
            lines.insert(at, again.unwrap_or(format!("{}\t0x{:04X}", show(k), c)));
            if !had {
                lines.insert(at, format!("{}\t0x{:04X}", show(k), c + 1));
            }
            (e, lines.join("\n") + "\n", if single { "byte listed twice" } else { "pointer listed twice" })
        }
        k => {
            // Replaces the character of a line that is not required elsewhere.
            // The edges of the gaps as often as what lies inside.
            let c = match (k, s.chance(1, 2)) {
                (2, true) => s.pick(&[0xD800, 0xDFFF, 0xDBFF, 0xDC00]),
                (2, false) => s.range(0xD800, 0xDFFF),
                (_, true) => 0x110000,
                (_, false) => s.pick(&[0x110001, 0x1FFFFF, 0xFFFFFFF, 0x120000, 0x80000041]),
            };
            let free: Vec<usize> = (0..lines.len()).filter(|&i| key(&lines[i]).map_or(false, |b| !single || b >= 0x80)).collect();
            if free.is_empty() {
                lines.insert(at, format!("{}\t0x{:04X}", show(0x80), c));
            } else {
                let i = s.pick(&free);
                lines[i] = format!("{}\t0x{:04X}", show(key(&lines[i]).unwrap()), c);
            }
            (e, lines.join("\n") + "\n", if k == 2 { "surrogate instead of a character" } else { "value above 10FFFF instead of a character" })
        }
    }
}

/// Err: the script accepted it.
fn malformed(w: &Worker, e: usize, text: &str) -> Result<(), String> {
    w.reset();
    let mine: Vec<PathBuf> = outputs(w).into_iter().filter(|p| enc_of(p) == e).collect();
    let before: Vec<Vec<u8>> = mine.iter().map(|p| fs::read(p).unwrap_or_default()).collect();
    w.put(e, text.as_bytes());
    if w.script_for(e).is_err() || mine.iter().zip(&before).all(|(p, b)| fs::read(p).unwrap_or_default() == *b) {
        return Ok(());
    }
    Err(format!("{}: the script accepted a malformed mapping: exit status 0 and tables were written", ENCS[e].name))
}

fn c28_malformed(ws: &mut [Worker], seed: u64, n: usize, t: &Tally) -> Option<Found> {
    let mut f = rounds(ws, n, |w, i| {
        let mut s = Src::seeded(round_seed(seed, "C28", "malformed", i));
        let (e, text, kind) = gen_malformed(&mut s);
        t.maps.fetch_add(1, Ordering::Relaxed);
        t.obs.fetch_add(1, Ordering::Relaxed);
        t.label(kind, 1);
        t.seen.lock().unwrap().insert(hash_bytes(text.as_bytes(), e as u64));
        if i < 6 {
            t.samples.lock().unwrap().push(format!("{}, {}, {} lines", ENCS[e].name, kind, text.lines().count()));
        }
        match malformed(w, e, &text) {
            Ok(()) => None,
            Err(m) => Some(Found {
                sub: "malformed",
                enc: e,
                dec: true,
                data: text.into_bytes(),
                plan: vec![],
                bad: Bad::Miss(Miss { enc: e, dec: true, input: vec![], msg: format!("{} ({})", m, kind) }),
            }),
        }
    })?;
    let w = &ws[0];
    let lines: Vec<String> = String::from_utf8_lossy(&f.data).lines().map(|l| l.to_string()).collect();
    // The complaint must stay, so only mappings that remain malformed count.
    let lines = drop_lines(lines, 60, |l| is_fixed(f.enc, l), |c| is_malformed(f.enc, c) && malformed(w, f.enc, c).is_err());
    f.data = (lines.join("\n") + "\n").into_bytes();
    Some(f)
}

/// Whether a mapping has the kind of defect that `gen_malformed` makes.
fn is_malformed(e: usize, text: &str) -> bool {
    let single = e != BIG5 && e != SJIS;
    let limit: i64 = if single { 256 } else if e == BIG5 { 19782 } else { 11280 };
    let mut seen = HashSet::new();
    let hex = |t: &str| {
        let (neg, t) = match t.strip_prefix('-') {
            Some(r) => (-1, r),
            None => (1, t),
        };
        i64::from_str_radix(t.trim_start_matches("0x"), 16).ok().map(|v| neg * v)
    };
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 || p[0].starts_with('#') {
            continue;
        }
        let k = if single { hex(p[0]) } else { p[0].parse().ok() };
        if p[1].starts_with('#') && k.is_some() {
            continue;
        }
        match (k, hex(p[1])) {
            (Some(k), Some(c)) => {
                if !(0..limit).contains(&k) || !seen.insert(k) || !(0..=0x10FFFF).contains(&c) || (0xD800..=0xDFFF).contains(&c) {
                    return true;
                }
            }
            _ => return true,
        }
    }
    false
}

/// Removes as many lines as `budget` trials find removable.
fn drop_lines(mut lines: Vec<String>, mut budget: usize, keep: impl Fn(&str) -> bool, mut fails: impl FnMut(&str) -> bool) -> Vec<String> {
    let mut span = lines.len();
    while span >= 1 && budget > 0 {
        let mut at = 0;
        while at < lines.len() && budget > 0 {
            let c: Vec<String> =
                lines.iter().enumerate().filter(|(i, l)| *i < at || *i >= at + span || keep(l)).map(|x| x.1.clone()).collect();
            if c.len() < lines.len() {
                budget -= 1;
                if fails(&(c.join("\n") + "\n")) {
                    lines = c;
                    continue;
                }
            }
            at += span;
        }
        span /= 2;
    }
    lines
}

/// Damages one line so that a number in it cannot be read.
fn garble(s: &mut Src, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let at: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].split_whitespace().count() >= 2 && !lines[i].trim_start().starts_with('#')).collect();
    if at.is_empty() {
        lines.push("zz\t0x41".into());
        return lines.join("\n") + "\n";
    }
    let k = s.pick(&at);
    let mut p: Vec<String> = lines[k].split_whitespace().map(|x| x.to_string()).collect();
    let j = if p[1].starts_with('#') { 0 } else { s.us(2) };
    p[j] = s.pick(&["zz", "0xG1", "1.5", "--", "?"]).to_string();
    lines[k] = p.join("\t");
    lines.join("\n") + "\n"
}

const WHAT_C27: &str = "30 random mapping files and 2 random indexes per round (the last round: the repository's); each script runs five times, with no, shorter, longer and its own old contents, different hash seeds, times of day, directories and locales, and with the other scripts running at the same time; all generated files must be equal";
const WHAT_C27I: &str = "mapping files and indexes a script has to refuse, and odd ones that it may (no file, stray bytes, cut off, empty, ASCII alone): where it does, the files generated before for that encoding must be unchanged";
const WHAT_C27X: &str = "a script is ended before or within its n-th write to a file, or finds no space from there on (a preloaded library injects the fault); it must not claim success, and a complete run after it must write the same files as a run in a clean tree; mappings random or the repository's, the interrupted run with the same or another one";
const WHAT_C28: &str = "valid random mapping files and indexes into which one defect is put: a byte or pointer out of range, one listed twice, a surrogate or a value above 10FFFF in place of a character, an unreadable number; the script must fail, or leave its files as they were";
const WHAT_C21: &str = "30 random mapping files per round replace the repository's, the generator script runs on them, the crate is rebuilt; all byte strings of length 1-2 and all scalar values are compared with the mapping";
const WHAT_C21R: &str = "mapping files that do not map 00-7F to themselves must make the script fail or leave the table as it was";
const WHAT_C22: &str = "a random Big5 and a random JIS X 0208 index per round replace the repository's, the generator scripts run on them, the crate is rebuilt; all byte strings of length 1-2, all scalar values and the base+mark pairs are compared with the index; the last round uses the repository's own indexes";
const WHAT_C22V: &str = "the test vector files the scripts wrote in those rounds: they list every ASCII byte, pointer and encodable character, and as whole files convert to each other through the rebuilt crate in both directions";
const WHAT_C23: &str = "all generator scripts run on the repository's mappings in a scratch copy, the crate is rebuilt; every byte string of length 1-2 and every scalar value in 38 encodings is compared with the crate built from the committed tables and with the frozen reference mappings";

pub fn handles(id: &str) -> bool {
    matches!(id, "C21" | "C22" | "C23" | "C27" | "C28")
}

pub fn run(id: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    set_sub(match id {
        "C23" => "regenerate",
        "C27" => "reproduce",
        "C28" => "malformed",
        _ => "convert",
    });
    let mut ws = lab();
    // The unchanged tree must build here at all: anything else is no finding.
    let first: Vec<Result<Lib, String>> = if id == "C27" || id == "C28" { vec![] } else { std::thread::scope(|sc| {
        let hs: Vec<_> = ws.iter_mut().map(|w| sc.spawn(move || w.build())).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| die("harness error"))).collect()
    })};
    for r in &first {
        if let Err(e) = r {
            die(&format!("the crate does not build in the scratch directory: {}", e));
        }
    }
    let mut reports = vec![];
    let mut samples = vec![];
    let mut found;
    let rule;
    match id {
        "C21" => {
            rule = "A case is one mapping file. Non-trivial (convert): it defines at least one high byte; (refuse): every case.";
            let t = Tally::default();
            let ts = Instant::now();
            found = c21_convert(&mut ws, seed, if thorough { 240 } else { 16 }, &t);
            reports.push(t.report("convert", WHAT_C21, false, ts.elapsed().as_secs_f64()));
            samples.append(&mut t.samples.lock().unwrap());
            if found.is_none() {
                let t = Tally::default();
                let ts = Instant::now();
                found = c21_refuse(&mut ws, seed, if thorough { 4000 } else { 640 }, &t);
                reports.push(t.report("refuse", WHAT_C21R, false, ts.elapsed().as_secs_f64()));
            }
        }
        "C22" => {
            rule = "A case is one index file. Non-trivial: it lists at least 5 pointers.";
            let (t, tv) = (Tally::default(), Tally::default());
            let ts = Instant::now();
            found = c22_convert(&mut ws, seed, if thorough { 480 } else { 32 }, &t, &tv);
            tv.label("bytes of test vectors converted", tv.vec_bytes.load(Ordering::Relaxed));
            reports.push(t.report("convert", WHAT_C22, false, ts.elapsed().as_secs_f64()));
            reports.push(tv.report("vectors", WHAT_C22V, false, 0.0));
            samples.append(&mut t.samples.lock().unwrap());
        }
        "C28" => {
            rule = "A case is one mapping or index file. Non-trivial: every case.";
            let t = Tally::default();
            let ts = Instant::now();
            found = c28_malformed(&mut ws, seed, if thorough { 20_000 } else { 600 }, &t);
            reports.push(t.report("malformed", WHAT_C28, false, ts.elapsed().as_secs_f64()));
            samples.append(&mut t.samples.lock().unwrap());
        }
        "C27" => {
            rule = "A case is one mapping or index file. Non-trivial (reproduce): every generated file; (intact): the script did refuse it; (interrupted): the fault did happen.";
            let t = Tally::default();
            let ts = Instant::now();
            found = c27_reproduce(&mut ws, seed, if thorough { 600 } else { 48 }, &t);
            reports.push(t.report("reproduce", WHAT_C27, false, ts.elapsed().as_secs_f64()));
            if found.is_none() {
                let t = Tally::default();
                let ts = Instant::now();
                found = c27_intact(&mut ws, seed, if thorough { 6000 } else { 360 }, &t);
                reports.push(t.report("intact", WHAT_C27I, false, ts.elapsed().as_secs_f64()));
            }
            if found.is_none() {
                if fault_so(&ws[0]).is_none() {
                    die("cannot build the library that injects faults");
                }
                let t = Tally::default();
                let ts = Instant::now();
                found = c27_interrupted(&mut ws, seed, if thorough { 4000 } else { 320 }, &t);
                reports.push(t.report("interrupted", WHAT_C27X, false, ts.elapsed().as_secs_f64()));
            }
        }
        _ => {
            rule = "A case is one input in one encoding. Non-trivial: every input beyond ASCII alone; distinct by construction.";
            let t = Tally::default();
            let ts = Instant::now();
            found = c23(&mut ws, &t);
            let mut r = t.report("regenerate", WHAT_C23, found.is_none(), ts.elapsed().as_secs_f64());
            // 128 single bytes, 128*128 pairs and 128 characters are ASCII alone.
            r.nontrivial = r.evals.saturating_sub(N as u64 * (128 + 128 * 128 + 128));
            reports.push(r);
            for (e, b) in [(BIG5, vec![0xA4, 0x40]), (SJIS, vec![0x82, 0xA0]), (SB0, vec![0x80])] {
                let mut out = [0u8; 32];
                if let Ok(l) = &first[0] {
                    let o = l.call(e, true, &b, &mut out);
                    samples.push(format!("decode {} {:02X?}: {}", ENCS[e].name, b, o.show(&out)));
                }
            }
        }
    }
    let violations = found.is_some() as u64;
    if let Some(f) = &found {
        report(id, f);
    }
    cleanup();
    evidence(
        id,
        if thorough { "thorough" } else { "quick" },
        seed,
        rule,
        &reports,
        &samples,
        t0.elapsed().as_secs_f64(),
        violations,
        &[
            "The reference models in /verif/harness/src/model.rs state what a mapping means.",
            "The scripts run with the installed python3 and the crate is rebuilt with the installed rustc, at opt-level 1 with overflow checks and debug assertions.",
            "Exploration: mapping files that were not generated are not covered.",
        ],
    );
    if violations > 0 {
        1
    } else {
        println!("{}: held on everything explored", id);
        0
    }
}

pub fn replay(path: &str, id: &str, sub: &str, c: &Case) -> i32 {
    let mut ws = lab();
    ws.truncate(1);
    let w = &mut ws[0];
    if id != "C27" && id != "C28" {
        if let Err(e) = w.build() {
            die(&format!("the crate does not build in the scratch directory: {}", e));
        }
    }
    let text = String::from_utf8_lossy(&c.data).into_owned();
    let r: Result<(), String> = match (id, sub) {
        ("C21", "refuse") => refused(w, c.enc - SB0, &text),
        ("C21", _) => with_case(c.enc, &c.data, || try_one(w, c.enc, &text, false)).map_err(|b| b.msg()),
        ("C28", _) => malformed(w, c.enc, &text),
        ("C27", "intact") => intact(w, c.enc, &c.data).map(|_| ()),
        ("C27", "interrupted") => interrupted(w, c.enc, &text, &[c.p(0) as u32, c.p(1) as u32, c.p(2) as u32]).map(|_| ()),
        ("C27", _) => reproduce_one(w, c.enc, &text).map_err(|b| b.msg()),
        ("C22", _) => with_case(c.enc, &c.data, || try_one(w, c.enc, &text, sub == "vectors")).map_err(|b| b.msg()),
        _ => match regenerate(w) {
            Err(b) => Err(b.msg()),
            Ok(l) => {
                let mut t = Target::new();
                with_case(c.enc, &c.data, || one_input(&l, refs(), Some(&mut t), c.enc, c.dec, &c.data, &mut Vec::new())).map_err(|m| m.msg)
            }
        },
    };
    cleanup();
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
