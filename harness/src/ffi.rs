//! C ABI of expat, loaded with dlopen from either librexpat.so (code under test) or the system's
//! libexpat (reference implementation).
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_long, c_uchar, c_uint, c_ulong, c_void};

pub type P = *mut c_void; // XML_Parser
pub type S = *const c_void; // const XML_Char *

extern "C" {
    pub fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    pub fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    pub fn dlerror() -> *const c_char;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opts: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
    pub fn munmap(a: *mut c_void, l: usize) -> c_int;
    pub fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
    pub fn alarm(s: c_uint) -> c_uint;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn kill(pid: c_int, s: c_int) -> c_int;
    pub fn getpid() -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn setitimer(which: c_int, new: *const [c_long; 4], old: *mut [c_long; 4]) -> c_int;
}

#[repr(C)]
pub struct Encoding {
    pub map: [c_int; 256],
    pub data: *mut c_void,
    pub convert: Option<unsafe extern "C" fn(*mut c_void, *const c_char) -> c_int>,
    pub release: Option<unsafe extern "C" fn(*mut c_void)>,
}

#[repr(C)]
pub struct Content {
    pub typ: c_uint,
    pub quant: c_uint,
    pub name: S,
    pub numchildren: c_uint,
    pub children: *mut Content,
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct ParsingStatus {
    pub parsing: c_uint,
    pub final_buffer: c_uchar,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Version {
    pub major: c_int,
    pub minor: c_int,
    pub micro: c_int,
}

#[repr(C)]
pub struct Feature {
    pub feature: c_uint,
    pub name: *const c_char,
    pub value: c_long,
}

pub type FnV = *mut c_void; // untyped callback pointer

macro_rules! api {
    ($( $name:ident : fn($($t:ty),*) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Lib {
            pub path: String,
            pub wide: bool,
            /// 0 = code under test, 1 = reference
            pub role: u8,
            $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)*
            pub SetReparseDeferralEnabled: Option<unsafe extern "C" fn(P, c_uchar) -> c_uchar>,
            pub SetBLMax: Option<unsafe extern "C" fn(P, f32) -> c_uchar>,
            pub SetBLThresh: Option<unsafe extern "C" fn(P, u64) -> c_uchar>,
            pub SetATThresh: Option<unsafe extern "C" fn(P, u64) -> c_uchar>,
        }
        impl Lib {
            pub fn load(path: &str, wide: bool, role: u8) -> Result<Lib, String> {
                unsafe {
                    let c = CString::new(path).unwrap();
                    // RTLD_NOW, local scope
                    let h = dlopen(c.as_ptr(), 2);
                    if h.is_null() {
                        return Err(std::ffi::CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
                    }
                    let sym = |n: &str| -> *mut c_void {
                        let c = CString::new(format!("XML_{}", n)).unwrap();
                        dlsym(h, c.as_ptr())
                    };
                    $(let $name = {
                        let p = sym(stringify!($name));
                        if p.is_null() { return Err(format!("{}: no symbol XML_{}", path, stringify!($name))); }
                        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                    };)*
                    Ok(Lib {
                        path: path.to_string(), wide, role,
                        $($name,)*
                        SetReparseDeferralEnabled: std::mem::transmute(sym("SetReparseDeferralEnabled")),
                        SetBLMax: std::mem::transmute(sym("SetBillionLaughsAttackProtectionMaximumAmplification")),
                        SetBLThresh: std::mem::transmute(sym("SetBillionLaughsAttackProtectionActivationThreshold")),
                        SetATThresh: std::mem::transmute(sym("SetAllocTrackerActivationThreshold")),
                    })
                }
            }
        }
    };
}

api! {
    ParserCreate: fn(S) -> P;
    ParserCreateNS: fn(S, c_uint) -> P;
    ParserCreate_MM: fn(S, *const c_void, S) -> P;
    ParserReset: fn(P, S) -> c_uchar;
    ParserFree: fn(P);
    ExternalEntityParserCreate: fn(P, S, S) -> P;
    Parse: fn(P, *const c_char, c_int, c_int) -> c_uint;
    GetBuffer: fn(P, c_int) -> *mut c_void;
    ParseBuffer: fn(P, c_int, c_int) -> c_uint;
    StopParser: fn(P, c_uchar) -> c_uint;
    ResumeParser: fn(P) -> c_uint;
    GetParsingStatus: fn(P, *mut ParsingStatus);
    SetElementHandler: fn(P, FnV, FnV);
    SetStartElementHandler: fn(P, FnV);
    SetEndElementHandler: fn(P, FnV);
    SetCharacterDataHandler: fn(P, FnV);
    SetProcessingInstructionHandler: fn(P, FnV);
    SetCommentHandler: fn(P, FnV);
    SetCdataSectionHandler: fn(P, FnV, FnV);
    SetStartCdataSectionHandler: fn(P, FnV);
    SetEndCdataSectionHandler: fn(P, FnV);
    SetDefaultHandler: fn(P, FnV);
    SetDefaultHandlerExpand: fn(P, FnV);
    SetDoctypeDeclHandler: fn(P, FnV, FnV);
    SetStartDoctypeDeclHandler: fn(P, FnV);
    SetEndDoctypeDeclHandler: fn(P, FnV);
    SetUnparsedEntityDeclHandler: fn(P, FnV);
    SetNotationDeclHandler: fn(P, FnV);
    SetNamespaceDeclHandler: fn(P, FnV, FnV);
    SetStartNamespaceDeclHandler: fn(P, FnV);
    SetEndNamespaceDeclHandler: fn(P, FnV);
    SetNotStandaloneHandler: fn(P, FnV);
    SetExternalEntityRefHandler: fn(P, FnV);
    SetExternalEntityRefHandlerArg: fn(P, *mut c_void);
    SetSkippedEntityHandler: fn(P, FnV);
    SetUnknownEncodingHandler: fn(P, FnV, *mut c_void);
    SetElementDeclHandler: fn(P, FnV);
    SetAttlistDeclHandler: fn(P, FnV);
    SetXmlDeclHandler: fn(P, FnV);
    SetEntityDeclHandler: fn(P, FnV);
    DefaultCurrent: fn(P);
    SetReturnNSTriplet: fn(P, c_int);
    SetUserData: fn(P, *mut c_void);
    SetEncoding: fn(P, S) -> c_uint;
    UseParserAsHandlerArg: fn(P);
    UseForeignDTD: fn(P, c_uchar) -> c_uint;
    SetBase: fn(P, S) -> c_uint;
    GetBase: fn(P) -> S;
    GetSpecifiedAttributeCount: fn(P) -> c_int;
    GetIdAttributeIndex: fn(P) -> c_int;
    SetParamEntityParsing: fn(P, c_uint) -> c_int;
    SetHashSalt: fn(P, c_ulong) -> c_int;
    GetErrorCode: fn(P) -> c_uint;
    GetCurrentLineNumber: fn(P) -> c_ulong;
    GetCurrentColumnNumber: fn(P) -> c_ulong;
    GetCurrentByteIndex: fn(P) -> c_long;
    GetCurrentByteCount: fn(P) -> c_int;
    GetInputContext: fn(P, *mut c_int, *mut c_int) -> *const c_char;
    FreeContentModel: fn(P, *mut Content);
    MemMalloc: fn(P, usize) -> *mut c_void;
    MemRealloc: fn(P, *mut c_void, usize) -> *mut c_void;
    MemFree: fn(P, *mut c_void);
    ErrorString: fn(c_uint) -> *const c_char;
    ExpatVersion: fn() -> *const c_char;
    ExpatVersionInfo: fn() -> Version;
    GetFeatureList: fn() -> *const Feature;
}

impl Lib {
    /// A zero-terminated XML_Char string for this library.
    pub fn zstr(&self, s: &str) -> Vec<u16> {
        if self.wide {
            let mut v: Vec<u16> = s.encode_utf16().collect();
            v.push(0);
            v
        } else {
            let mut b = s.as_bytes().to_vec();
            b.push(0);
            if b.len() % 2 == 1 {
                b.push(0);
            }
            b.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect()
        }
    }
    /// n XML_Chars at p, as UTF-8 bytes (unpaired surrogates as their 3-byte forms).
    pub unsafe fn chars(&self, p: S, n: usize) -> Vec<u8> {
        if self.wide {
            let u = std::slice::from_raw_parts(p as *const u16, n);
            let mut out = Vec::with_capacity(n);
            for r in char::decode_utf16(u.iter().copied()) {
                match r {
                    Ok(c) => {
                        let mut b = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                    }
                    Err(e) => {
                        let c = e.unpaired_surrogate() as u32;
                        out.extend_from_slice(&[
                            0xE0 | (c >> 12) as u8,
                            0x80 | ((c >> 6) & 63) as u8,
                            0x80 | (c & 63) as u8,
                        ]);
                    }
                }
            }
            out
        } else {
            std::slice::from_raw_parts(p as *const u8, n).to_vec()
        }
    }
    pub unsafe fn zlen(&self, p: S) -> usize {
        let mut n = 0;
        if self.wide {
            while *(p as *const u16).add(n) != 0 {
                n += 1;
            }
        } else {
            while *(p as *const u8).add(n) != 0 {
                n += 1;
            }
        }
        n
    }
    pub unsafe fn z(&self, p: S) -> Vec<u8> {
        if p.is_null() {
            return b"<NULL>".to_vec();
        }
        self.chars(p, self.zlen(p))
    }
    pub unsafe fn oz(&self, p: S) -> Option<Vec<u8>> {
        if p.is_null() {
            None
        } else {
            Some(self.z(p))
        }
    }
    pub fn cz(&self) -> usize {
        if self.wide {
            2
        } else {
            1
        }
    }
}
