//! A stand-in for the GSS-API library. The functions defined here are linked instead of those of
//! the system: contexts, tokens and failures are what the scenario says, so that what the GSSAPI
//! mechanism makes of them can be told. The tokens are described in spec/GssApi.tla.
//!
//! The configuration of the session being stepped is thread local, and a context keeps the one
//! it was made with.
use serde_json::Value;
use std::cell::RefCell;
use std::os::raw::{c_int, c_void};
use std::ptr;

#[derive(Clone)]
pub struct Conf {
    flags: u32,
    legs: usize,
    key: u8,
    src: Vec<u8>,
    fail: String,
}

thread_local! {
    static CONF: RefCell<Option<Conf>> = const { RefCell::new(None) };
}

/// The configuration for the calls made by this thread from now on
pub fn configure(v: &Value) {
    let c = if v.is_object() {
        Conf {
            flags: v["flags"].as_u64().unwrap() as u32,
            legs: v["legs"].as_u64().unwrap() as usize,
            key: v["key"].as_u64().unwrap() as u8,
            src: crate::cb::bytes(&v["src"]),
            fail: v["fail"].as_str().unwrap().to_string(),
        }
    } else {
        Conf { flags: 62, legs: 2, key: 7, src: b"user@EXAMPLE.ORG".to_vec(), fail: String::new() }
    };
    CONF.with(|x| *x.borrow_mut() = Some(c));
}
fn conf() -> Conf {
    CONF.with(|c| c.borrow().clone()).expect("scenario: GSS-API used outside of a step")
}

type Om = u32;
const COMPLETE: Om = 0;
const CONTINUE: Om = 1;
const BAD_MECH: Om = 1 << 16;
const BAD_NAMETYPE: Om = 3 << 16;
const BAD_MIC: Om = 6 << 16;
const NO_CRED: Om = 7 << 16;
const NO_CONTEXT: Om = 8 << 16;
const DEFECTIVE: Om = 9 << 16;
const FAILURE: Om = 13 << 16;
const CONF_FLAG: u32 = 16;
const HOSTBASED: &[u8] = b"\x2a\x86\x48\x86\xf7\x12\x01\x02\x01\x04";
const KRB5: &[u8] = b"\x2a\x86\x48\x86\xf7\x12\x01\x02\x02";

#[repr(C)]
pub struct Buf {
    length: usize,
    value: *mut c_void,
}
#[repr(C)]
pub struct Oid {
    length: Om,
    elements: *const c_void,
}
pub struct Name(Vec<u8>);
pub struct Cred(c_int);
pub struct Ctx {
    conf: Conf,
    initiator: bool,
    calls: usize,
    complete: bool,
    flags: u32,
    src: Vec<u8>,
    target: Vec<u8>,
    sent: u8,
    received: u8,
}

unsafe fn get<'a>(b: *const Buf) -> &'a [u8] {
    if b.is_null() || (*b).length == 0 {
        &[]
    } else {
        std::slice::from_raw_parts((*b).value as *const u8, (*b).length)
    }
}
unsafe fn put(b: *mut Buf, v: Vec<u8>) {
    if !b.is_null() {
        (*b).length = v.len();
        (*b).value = if v.is_empty() {
            ptr::null_mut()
        } else {
            Box::into_raw(v.into_boxed_slice()) as *mut u8 as *mut c_void
        };
    }
}
unsafe fn set<T>(p: *mut T, v: T) {
    if !p.is_null() {
        p.write(v)
    }
}
unsafe fn oid_is(o: *const Oid, b: &[u8]) -> bool {
    !o.is_null() && std::slice::from_raw_parts((*o).elements as *const u8, (*o).length as usize) == b
}
fn check(b: &[u8]) -> [u8; 2] {
    (b.iter().enumerate().fold(0u64, |s, (i, x)| (s + (i as u64 + 1) * *x as u64) % 65521) as u16).to_be_bytes()
}
fn sealed(mut b: Vec<u8>) -> Vec<u8> {
    let c = check(&b);
    b.extend(c);
    b
}
/// The content of a token if its checksum is right
fn opened(b: &[u8]) -> Option<&[u8]> {
    let n = b.len().checked_sub(2)?;
    (check(&b[..n]) == b[n..]).then_some(&b[..n])
}

impl Ctx {
    /// Take token number j and produce the next one
    fn accept_token(&mut self, j: usize, t: &[u8]) -> Option<()> {
        let t = opened(t)?;
        if t.len() < 3 || t[0] != b'T' || t[1] != j as u8 || t[2] != self.conf.key {
            return None;
        }
        if j == 1 {
            let flags = u16::from_be_bytes([*t.get(3)?, *t.get(4)?]) as u32;
            let n = *t.get(5)? as usize;
            self.flags = flags & self.conf.flags;
            self.src = t.get(6..6 + n)?.to_vec();
            self.target = t.get(6 + n..)?.to_vec();
        } else if t.len() != 3 {
            return None;
        }
        Some(())
    }
    fn token(&self, j: usize) -> Vec<u8> {
        if j > self.conf.legs {
            return vec![];
        }
        let mut t = vec![b'T', j as u8, self.conf.key];
        if j == 1 {
            t.extend((self.flags as u16).to_be_bytes());
            t.push(self.src.len() as u8);
            t.extend(&self.src);
            t.extend(&self.target);
        }
        sealed(t)
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_acquire_cred(minor: *mut Om, _name: *mut Name, _time: Om, _mechs: *const c_void, usage: c_int, out: *mut *mut Cred, mechs: *mut *mut c_void, time: *mut Om) -> Om {
    set(minor, 0);
    set(mechs, ptr::null_mut());
    set(time, Om::MAX);
    if conf().fail == "cred" {
        return NO_CRED;
    }
    set(out, Box::into_raw(Box::new(Cred(usage))));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_cred(minor: *mut Om, c: *mut *mut Cred) -> Om {
    set(minor, 0);
    if !c.is_null() && !(*c).is_null() {
        drop(Box::from_raw(*c));
        *c = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_inquire_cred(minor: *mut Om, _c: *mut Cred, name: *mut *mut Name, time: *mut Om, usage: *mut c_int, mechs: *mut *mut c_void) -> Om {
    set(minor, 0);
    set(name, Box::into_raw(Box::new(Name(conf().src))));
    set(time, Om::MAX);
    set(usage, 0);
    set(mechs, ptr::null_mut());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_import_name(minor: *mut Om, b: *const Buf, kind: *const Oid, out: *mut *mut Name) -> Om {
    set(minor, 0);
    if conf().fail == "name" || !oid_is(kind, HOSTBASED) {
        return BAD_NAMETYPE;
    }
    set(out, Box::into_raw(Box::new(Name(get(b).to_vec()))));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_name(minor: *mut Om, n: *mut *mut Name) -> Om {
    set(minor, 0);
    if !n.is_null() && !(*n).is_null() {
        drop(Box::from_raw(*n));
        *n = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_name(minor: *mut Om, n: *const Name, out: *mut Buf, kind: *mut *const Oid) -> Om {
    set(minor, 0);
    set(kind, ptr::null());
    put(out, (*n).0.clone());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_export_name(minor: *mut Om, n: *const Name, out: *mut Buf) -> Om {
    set(minor, 0);
    put(out, (*n).0.clone());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_duplicate_name(minor: *mut Om, n: *const Name, out: *mut *mut Name) -> Om {
    set(minor, 0);
    set(out, Box::into_raw(Box::new(Name((*n).0.clone()))));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_canonicalize_name(minor: *mut Om, n: *const Name, _mech: *const Oid, out: *mut *mut Name) -> Om {
    gss_duplicate_name(minor, n, out)
}
#[no_mangle]
pub unsafe extern "C" fn gss_localname(minor: *mut Om, n: *const Name, _mech: *const Oid, out: *mut Buf) -> Om {
    set(minor, 0);
    let n = &(*n).0;
    put(out, n.split(|c| *c == b'@').next().unwrap_or(n).to_vec());
    COMPLETE
}

#[no_mangle]
pub unsafe extern "C" fn gss_init_sec_context(minor: *mut Om, cred: *const Cred, ctx: *mut *mut Ctx, target: *const Name, mech: *const Oid, req: Om, _time: Om, _cb: *const c_void, tok: *const Buf, amech: *mut *const Oid, out: *mut Buf, flags: *mut Om, time: *mut Om) -> Om {
    set(minor, 0);
    set(amech, ptr::null());
    set(time, Om::MAX);
    put(out, vec![]);
    if (*ctx).is_null() {
        let conf = conf();
        if !mech.is_null() && !oid_is(mech, KRB5) {
            return BAD_MECH;
        }
        if !cred.is_null() && (*cred).0 == 2 {
            return NO_CRED;
        }
        let c = Ctx {
            initiator: true,
            calls: 0,
            complete: false,
            flags: conf.flags & req,
            src: conf.src.clone(),
            target: (*target).0.clone(),
            sent: 0,
            received: 0,
            conf,
        };
        *ctx = Box::into_raw(Box::new(c));
    }
    let c = &mut **ctx;
    c.calls += 1;
    let n = c.calls;
    if c.conf.fail == format!("init{n}") {
        return FAILURE;
    }
    if n > 1 && c.accept_token(2 * (n - 1), get(tok)).is_none() {
        return DEFECTIVE;
    }
    put(out, c.token(2 * n - 1));
    set(flags, c.flags);
    c.complete = 2 * n > c.conf.legs;
    if c.complete { COMPLETE } else { CONTINUE }
}
#[no_mangle]
pub unsafe extern "C" fn gss_accept_sec_context(minor: *mut Om, ctx: *mut *mut Ctx, cred: *const Cred, tok: *const Buf, _cb: *const c_void, src: *mut *mut Name, mech: *mut *const Oid, out: *mut Buf, flags: *mut Om, time: *mut Om, delegated: *mut *mut Cred) -> Om {
    set(minor, 0);
    set(mech, ptr::null());
    set(time, Om::MAX);
    set(delegated, ptr::null_mut());
    put(out, vec![]);
    if (*ctx).is_null() {
        if !cred.is_null() && (*cred).0 == 1 {
            return NO_CRED;
        }
        let c = Ctx {
            conf: conf(),
            initiator: false,
            calls: 0,
            complete: false,
            flags: 0,
            src: vec![],
            target: vec![],
            sent: 0,
            received: 0,
        };
        *ctx = Box::into_raw(Box::new(c));
    }
    let c = &mut **ctx;
    c.calls += 1;
    let n = c.calls;
    if c.conf.fail == format!("accept{n}") {
        return FAILURE;
    }
    if c.accept_token(2 * n - 1, get(tok)).is_none() {
        return DEFECTIVE;
    }
    put(out, c.token(2 * n));
    set(flags, c.flags);
    c.complete = 2 * n + 1 > c.conf.legs;
    if c.complete {
        if !src.is_null() {
            *src = Box::into_raw(Box::new(Name(c.src.clone())));
        }
        COMPLETE
    } else {
        CONTINUE
    }
}
#[no_mangle]
pub unsafe extern "C" fn gss_delete_sec_context(minor: *mut Om, ctx: *mut *mut Ctx, out: *mut Buf) -> Om {
    set(minor, 0);
    put(out, vec![]);
    if !ctx.is_null() && !(*ctx).is_null() {
        drop(Box::from_raw(*ctx));
        *ctx = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_inquire_context(minor: *mut Om, ctx: *const Ctx, src: *mut *mut Name, target: *mut *mut Name, time: *mut Om, mech: *mut *const Oid, flags: *mut Om, local: *mut c_int, open: *mut c_int) -> Om {
    set(minor, 0);
    if ctx.is_null() {
        return NO_CONTEXT;
    }
    let c = &*ctx;
    if c.conf.fail == "info" {
        return FAILURE;
    }
    if !src.is_null() {
        *src = Box::into_raw(Box::new(Name(c.src.clone())));
    }
    if !target.is_null() {
        *target = Box::into_raw(Box::new(Name(c.target.clone())));
    }
    set(time, Om::MAX);
    if !mech.is_null() {
        struct S(Oid);
        unsafe impl Sync for S {}
        static K: S = S(Oid { length: 9, elements: KRB5.as_ptr() as *const c_void });
        *mech = &K.0;
    }
    set(flags, c.flags);
    set(local, c.initiator as c_int);
    set(open, c.complete as c_int);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_context_time(minor: *mut Om, _ctx: *const Ctx, time: *mut Om) -> Om {
    set(minor, 0);
    set(time, Om::MAX);
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_wrap(minor: *mut Om, ctx: *mut Ctx, conf: c_int, _qop: Om, msg: *const Buf, state: *mut c_int, out: *mut Buf) -> Om {
    set(minor, 0);
    put(out, vec![]);
    if ctx.is_null() || !(*ctx).complete {
        return NO_CONTEXT;
    }
    let c = &mut *ctx;
    if c.conf.fail == "wrap" {
        return FAILURE;
    }
    // without the flag messages can't be encrypted; the caller is told
    let conf = conf != 0 && c.flags & CONF_FLAG != 0;
    set(state, conf as c_int);
    let k = if conf { c.conf.key ^ 0x5a } else { 0 };
    let mut t = vec![b'W', conf as u8, !c.initiator as u8, c.conf.key, c.sent];
    t.extend(get(msg).iter().map(|b| b ^ k));
    c.sent = c.sent.wrapping_add(1);
    put(out, sealed(t));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_unwrap(minor: *mut Om, ctx: *mut Ctx, msg: *const Buf, out: *mut Buf, state: *mut c_int, qop: *mut Om) -> Om {
    set(minor, 0);
    set(qop, 0);
    put(out, vec![]);
    if ctx.is_null() || !(*ctx).complete {
        return NO_CONTEXT;
    }
    let c = &mut *ctx;
    let Some(t) = opened(get(msg)) else { return BAD_MIC };
    if t.len() < 5 || t[0] != b'W' || t[1] > 1 || t[2] != c.initiator as u8 || t[3] != c.conf.key || t[4] != c.received {
        return DEFECTIVE;
    }
    c.received = c.received.wrapping_add(1);
    set(state, t[1] as c_int);
    let k = if t[1] == 1 { c.conf.key ^ 0x5a } else { 0 };
    put(out, t[5..].iter().map(|b| b ^ k).collect());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_wrap_size_limit(minor: *mut Om, _ctx: *const Ctx, _conf: c_int, _qop: Om, out_size: Om, max: *mut Om) -> Om {
    set(minor, 0);
    set(max, out_size.saturating_sub(7));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_buffer(minor: *mut Om, b: *mut Buf) -> Om {
    set(minor, 0);
    if !b.is_null() {
        if !(*b).value.is_null() && (*b).length > 0 {
            drop(Box::from_raw(ptr::slice_from_raw_parts_mut((*b).value as *mut u8, (*b).length)));
        }
        (*b).length = 0;
        (*b).value = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_status(minor: *mut Om, code: Om, _kind: c_int, _mech: *const Oid, more: *mut Om, out: *mut Buf) -> Om {
    set(minor, 0);
    set(more, 0);
    put(out, format!("status {code:#x}").into_bytes());
    COMPLETE
}
