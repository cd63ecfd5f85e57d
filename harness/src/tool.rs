//! Properties of the converter program
use crate::gen::*;
use crate::model::*;
use crate::real;
use crate::spec::{self, Cfg, Src};
use crate::sym::*;
use xml::common::XmlVersion;
use xml::writer::{EmitterConfig, XmlEvent};

const CFG: Cfg = Cfg { xmlns: false, version: 100, lines: false };

/// The command line, and the version that it asks for
struct Args {
    args: Vec<String>,
    file: bool,
    v11: bool,
    /// how many bytes can be read at once
    piece: usize,
}

fn args() -> Args {
    let mut r = Args { args: vec![], file: false, v11: false, piece: usize::MAX };
    if param(3) == 2 {
        r.piece = [1, 2, 3, 7][choose(4)];
    }
    if param(3) != 1 {
        return r;
    }
    let form = choose(7);
    r.file = form == 1 || form == 3 || form == 5;
    if form >= 2 {
        let (v, v11) = [("1.0", false), ("1.1", true), ("1", false), ("1.10", true), ("1.00", false)][choose(5) as usize];
        r.v11 = v11;
        r.args = match form {
            2 | 5 => vec!["-x".into(), v.into()],
            3 => vec!["--xml_version".into(), v.into()],
            4 => vec!["-x".to_string() + v],
            _ => vec!["--xml_version=".to_string() + v],
        };
    }
    r
}

/// What the program did
struct Ran {
    v11: bool,
    text: String,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// The program itself, with its input, output and exit provided here
#[cfg(not(feature = "native"))]
mod program {
    use super::*;

    #[allow(unused_imports, dead_code)]
    mod source {
        include!(concat!(env!("OUT_DIR"), "/program.rs"));
        pub fn run() {
            let _ = main();
        }
    }

    static mut FD: i32 = 0;
    static mut PIECE: usize = usize::MAX;
    static mut OPEN: bool = false;
    static mut V11: bool = false;
    static mut ERRNO: i32 = 0;
    static mut TEXT: Option<(String, usize)> = None;
    static mut OUT: Vec<u8> = Vec::new();
    static mut ERR: Vec<u8> = Vec::new();

    /// The text is made when the program first reads
    #[no_mangle]
    extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        #[allow(static_mut_refs)]
        unsafe {
            if fd != FD || (fd != 0 && !OPEN) {
                fail("the converter reads something else");
            }
            let (s, i) = TEXT.get_or_insert_with(|| (input(), 0));
            let k = n.min(s.len() - *i).min(PIECE);
            std::ptr::copy_nonoverlapping(s.as_ptr().add(*i), buf, k);
            *i += k;
            k as isize
        }
    }

    #[no_mangle]
    extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        #[allow(static_mut_refs)]
        unsafe {
            let s = std::slice::from_raw_parts(buf, n);
            match fd {
                1 => OUT.extend_from_slice(s),
                2 => ERR.extend_from_slice(s),
                _ => return -1,
            }
        }
        n as isize
    }

    #[repr(C)]
    struct Part {
        buf: *const u8,
        n: usize,
    }

    #[no_mangle]
    extern "C" fn writev(fd: i32, parts: *const Part, count: i32) -> isize {
        let mut r = 0;
        for i in 0..count as usize {
            let p = unsafe { &*parts.add(i) };
            let k = write(fd, p.buf, p.n);
            if k < 0 {
                return k;
            }
            r += k;
        }
        r
    }

    /// The only file there is
    const FILE: &[u8] = b"in.hml\0";

    #[no_mangle]
    extern "C" fn open64(path: *const u8, _flags: i32, _mode: i32) -> i32 {
        for (i, b) in FILE.iter().enumerate() {
            if unsafe { *path.add(i) } != *b {
                fail("the converter opens something else");
            }
        }
        unsafe {
            OPEN = true;
        }
        3
    }

    #[no_mangle]
    extern "C" fn close(_fd: i32) -> i32 {
        0
    }

    #[no_mangle]
    extern "C" fn fcntl(_fd: i32, _command: i32, _argument: i32) -> i32 {
        0
    }

    #[no_mangle]
    extern "C" fn lseek64(_fd: i32, _offset: i64, _whence: i32) -> i64 {
        0
    }

    /// A plain file whose size is not known
    #[no_mangle]
    extern "C" fn statx(_fd: i32, _path: *const u8, _flags: i32, _mask: u32, buf: *mut u64) -> i32 {
        for i in 0..32 {
            unsafe { *buf.add(i) = 0 };
        }
        unsafe { *(buf as *mut u32) = 0xfff };
        0
    }

    #[no_mangle]
    extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }

    #[no_mangle]
    extern "C" fn memrchr(s: *const u8, c: i32, n: usize) -> *const u8 {
        let mut i = n;
        while i > 0 {
            i -= 1;
            let p = unsafe { s.add(i) };
            if unsafe { *p } == c as u8 {
                return p;
            }
        }
        std::ptr::null()
    }

    #[no_mangle]
    extern "C" fn memchr(s: *const u8, c: i32, n: usize) -> *const u8 {
        for i in 0..n {
            let p = unsafe { s.add(i) };
            if unsafe { *p } == c as u8 {
                return p;
            }
        }
        std::ptr::null()
    }

    #[no_mangle]
    extern "C" fn exit(_code: i32) -> ! {
        finish();
        end()
    }

    fn finish() {
        #[allow(static_mut_refs)]
        unsafe {
            let text = match TEXT.take() {
                Some((s, _)) => s,
                None => fail("the converter does not read its input"),
            };
            ran(Ran { v11: V11, text, out: std::mem::take(&mut OUT), err: std::mem::take(&mut ERR) });
        }
    }

    pub fn run() {
        let a = args();
        let mut words = vec!["hmlconvert".to_string()];
        words.extend(a.args);
        if a.file {
            words.push("in.hml".into());
        }
        let texts: Vec<std::ffi::CString> = words.into_iter().map(|x| std::ffi::CString::new(x).unwrap()).collect();
        let mut argv: Vec<*const i8> = texts.iter().map(|x| x.as_ptr()).collect();
        argv.push(std::ptr::null());
        unsafe {
            V11 = a.v11;
            PIECE = a.piece;
            FD = if a.file { 3 } else { 0 };
            let init = arguments();
            if !init.is_null() {
                (*init)(texts.len() as i32, argv.as_ptr(), argv.as_ptr().add(texts.len()));
            }
        }
        source::run();
        // as the end of the program does
        let _ = std::io::Write::flush(&mut std::io::stdout());
        finish();
    }
}

/// The compiled program
#[cfg(feature = "native")]
mod program {
    use super::*;
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};

    pub fn run() {
        let a = args();
        let text = input();
        let mut file = std::path::PathBuf::new();
        let mut words = a.args;
        if a.file {
            file = std::env::temp_dir().join(format!("converter-{}.hml", std::process::id()));
            std::fs::write(&file, &text).expect("the file");
            words.push(file.to_str().unwrap().into());
        }
        let exe = std::env::var("HMLCONVERT").expect("the program");
        let mut c = Command::new("timeout")
            .args(["10", &exe])
            .args(words)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("the program");
        // the texts are shorter than what a pipe holds
        let mut stdin = c.stdin.take().unwrap();
        if !a.file {
            for piece in text.as_bytes().chunks(a.piece) {
                let _ = stdin.write_all(piece);
                if piece.len() < text.len() {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
            }
        }
        drop(stdin);
        let (mut out, mut err) = (vec![], vec![]);
        c.stdout.take().unwrap().read_to_end(&mut out).unwrap();
        c.stderr.take().unwrap().read_to_end(&mut err).unwrap();
        let code = c.wait().unwrap().code();
        if a.file {
            let _ = std::fs::remove_file(&file);
        }
        if code == Some(124) {
            fail("the converter does not end");
        }
        if code.is_none() || code == Some(101) || code == Some(134) {
            panic!("the converter panics");
        }
        ran(Ran { v11: a.v11, text, out, err });
    }
}

/// Entry: parameters are family, size, family option, and 1 for arguments or 2
/// for input that comes in pieces
#[no_mangle]
pub fn h_tool() {
    program::run();
}

fn input() -> String {
    family(param(0), param(1) as usize, param(2))
}

/// The XML of the first events, written by the XML writer
fn written(ev: &[Ev], v11: bool) -> Vec<u8> {
    let version = if v11 { XmlVersion::Version11 } else { XmlVersion::Version10 };
    let mut out = vec![];
    let mut w = EmitterConfig::new().perform_indent(true).create_writer(&mut out);
    for e in ev {
        let r = match e.k {
            K::StartDoc => w.write(XmlEvent::StartDocument { version, encoding: None, standalone: None }),
            K::Start => {
                let mut x = XmlEvent::start_element(e.name.local.as_str());
                for (n, v) in &e.attrs {
                    x = x.attr(n.local.as_str(), v);
                }
                w.write(x)
            }
            K::End => w.write(XmlEvent::end_element()),
            K::Content => w.write(XmlEvent::characters(&e.data)),
            K::Comment => w.write(XmlEvent::comment(&e.data)),
            K::EndDoc | K::Pi => Ok(()),
        };
        check(r.is_ok(), "the XML writer refuses an event");
    }
    out
}

/// Leaves out the whitespace next to markup, which is for layout
fn without_layout(s: &[u8]) -> Vec<u8> {
    let ws = |b: u8| b == b' ' || b == b'\n' || b == b'\t' || b == b'\r';
    let mut r: Vec<u8> = vec![];
    let mut skip = true;
    for b in s {
        if skip && ws(*b) {
            continue;
        }
        skip = *b == b'>';
        if *b == b'<' {
            while r.last().is_some_and(|x| ws(*x)) {
                r.pop();
            }
        }
        r.push(*b);
    }
    while r.last().is_some_and(|x| ws(*x)) {
        r.pop();
    }
    r
}

fn same_xml(a: &[u8], b: &[u8]) -> bool {
    a == b || without_layout(a) == without_layout(b)
}

fn contains(s: &[u8], x: &[u8]) -> bool {
    s.len() >= x.len() && (0..=s.len() - x.len()).any(|i| s[i..i + x.len()] == *x)
}

fn ran(r: Ran) {
    observe(r.out.len() as u64);
    observe(r.out.last().map_or(0, |b| *b as u64));
    let src = Src::new(&r.text, false);
    let sp = spec::read_dup(&src, CFG).0;
    let want = written(&sp.ev, r.v11);
    match &sp.err {
        None => {
            reach(1);
            if sp.ev.len() > 6 {
                reach(2);
            }
            check(same_xml(&r.out, &want), "the XML written is not that of the text");
        }
        Some(_) => {
            reach(3);
            let mut ok = same_xml(&r.out, &want);
            if let (false, Some(open)) = (ok, sp.open) {
                // the element in which the mistake is may have been delivered
                let mut ev = sp.ev;
                ev.push(open);
                ok = same_xml(&r.out, &written(&ev, r.v11));
            }
            check(ok, "the XML written is not that of the part before the mistake");
            // what the library says about the mistake
            let Some((text, line)) = real::mistake(&r.text, CFG) else {
                fail("a mistake is not noticed");
            };
            check(contains(&r.err, text.as_bytes()), "the mistake is not described");
            check(contains(&r.err, line.to_string().as_bytes()), "the place of the mistake is not described");
        }
    }
}
