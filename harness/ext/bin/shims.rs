// Stand-ins for the PostgreSQL functions the extension calls: the server is not part of what is decided.
// Memory contexts are the C heap, nothing is ever freed early, all datums of the types used are passed by value
// except for the variable-length ones listed in `TYPES`.
#![allow(non_upper_case_globals, non_snake_case, clippy::all)]
use pgrx::pg_sys;
use std::os::raw::{c_char, c_int, c_void};

unsafe extern "C" {
    fn malloc(n: usize) -> *mut c_void;
    fn free(p: *mut c_void);
    fn realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn abort() -> !;
}
fn zeroed(n: usize) -> *mut c_void { unsafe { let p = malloc(if n == 0 { 1 } else { n }); std::ptr::write_bytes(p as *mut u8, 0, n); p } }

#[unsafe(no_mangle)] pub static mut CurrentMemoryContext: *mut c_void = 1 as *mut c_void;
#[unsafe(no_mangle)] pub static mut TopMemoryContext: *mut c_void = 1 as *mut c_void;
#[unsafe(no_mangle)] pub static mut PG_exception_stack: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub static mut error_context_stack: *mut c_void = std::ptr::null_mut();
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn palloc(n: usize) -> *mut c_void { unsafe { malloc(if n == 0 { 1 } else { n }) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn palloc0(n: usize) -> *mut c_void { zeroed(n) }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn palloc_extended(n: usize, _f: c_int) -> *mut c_void { zeroed(n) }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn MemoryContextAlloc(_c: *mut c_void, n: usize) -> *mut c_void { zeroed(n) }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn MemoryContextAllocZero(_c: *mut c_void, n: usize) -> *mut c_void { zeroed(n) }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn MemoryContextAllocExtended(_c: *mut c_void, n: usize, _f: c_int) -> *mut c_void { zeroed(n) }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn MemoryContextRegisterResetCallback(_c: *mut c_void, _b: *mut c_void) {}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn repalloc(p: *mut c_void, n: usize) -> *mut c_void { unsafe { realloc(p, n) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pfree(p: *mut c_void) { unsafe { free(p) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn AggCheckCallContext(_f: *mut c_void, c: *mut *mut c_void) -> c_int { unsafe { if !c.is_null() { *c = 1 as *mut c_void; } } 1 }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_detoast_datum(p: *mut c_void) -> *mut c_void { p }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_detoast_datum_packed(p: *mut c_void) -> *mut c_void { p }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_detoast_datum_copy(p: *mut c_void) -> *mut c_void { unsafe { let b = *(p as *const u8); let (h, k) = if b & 1 == 1 { ((b >> 1) as usize, 1) } else { ((*(p as *const u32) >> 2) as usize, 4) }; let n = h - k + 4; let q = malloc(n); *(q as *mut u32) = (n as u32) << 2; std::ptr::copy_nonoverlapping((p as *const u8).add(k), (q as *mut u8).add(4), n - 4); q } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn GetDatabaseEncoding() -> c_int { 6 }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_server_to_any(s: *const c_char, _n: c_int, _e: c_int) -> *const c_char { s }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn pg_any_to_server(s: *const c_char, _n: c_int, _e: c_int) -> *const c_char { s }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn errstart(_l: c_int, _d: *const c_char) -> bool { unsafe { abort() } }

type Fn_ = unsafe extern "C-unwind" fn(pg_sys::FunctionCallInfo) -> pg_sys::Datum;
unsafe fn arg(f: pg_sys::FunctionCallInfo, i: usize) -> usize { unsafe { (*f).args.as_slice(i + 1)[i].value.value() } }
/// the hash of a by-value datum: any function would do
unsafe extern "C-unwind" fn hash8(_f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { pg_sys::Datum::from(0usize) }
/// where the hash matters (distinct counts), the value itself is one
pub static mut TELL: bool = false;
unsafe extern "C-unwind" fn hashx(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from(if TELL { arg(f, 0) } else { 0usize }) } }
unsafe extern "C-unwind" fn eq8(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from((arg(f, 0) == arg(f, 1)) as usize) } }
/// a text's bytes, after a header of one byte or four
unsafe fn bytes<'a>(p: *const u8) -> &'a [u8] { unsafe { if *p & 1 == 1 { std::slice::from_raw_parts(p.add(1), (*p >> 1) as usize - 1) } else { std::slice::from_raw_parts(p.add(4), (*(p as *const u32) >> 2) as usize - 4) } } }
unsafe extern "C-unwind" fn eqtext(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum {
    unsafe {
        let (a, b) = (bytes(arg(f, 0) as *const u8), bytes(arg(f, 1) as *const u8));
        if a.len() != b.len() { return pg_sys::Datum::from(0usize); }
        let mut same = true;
        for i in 0..a.len() { same &= a[i] == b[i]; }
        pg_sys::Datum::from(same as usize)
    }
}
unsafe extern "C-unwind" fn cmp8(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { let (a, b) = (arg(f, 0) as i64, arg(f, 1) as i64); pg_sys::Datum::from(((a > b) as i32 - (a < b) as i32) as i64 as usize) } }

/// type cache entry of a by-value 8-byte type (of text, with equality only, and of a type of 12 bytes, said to be uuid, for its layout)
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn lookup_type_cache(t: pg_sys::Oid, _flags: c_int) -> *mut pg_sys::TypeCacheEntry {
    unsafe {
        let e = zeroed(std::mem::size_of::<pg_sys::TypeCacheEntry>()) as *mut pg_sys::TypeCacheEntry;
        (*e).type_id = t;
        let var = t == pg_sys::TEXTOID || t == pg_sys::BYTEAOID;
        let uuid = t == pg_sys::UUIDOID;
        (*e).typlen = if var { -1 } else if uuid { 12 } else { 8 };
        (*e).typbyval = !var && !uuid;
        (*e).typalign = if var { b'i' } else { b'd' } as c_char;
        let h: Fn_ = hash8; let x: Fn_ = hashx; let q: Fn_ = if var { eqtext } else { eq8 }; let c: Fn_ = cmp8;
        (*e).hash_proc_finfo.fn_addr = Some(std::mem::transmute::<Fn_, _>(h));
        (*e).hash_extended_proc_finfo.fn_addr = Some(std::mem::transmute::<Fn_, _>(x));
        (*e).eq_opr_finfo.fn_addr = Some(std::mem::transmute::<Fn_, _>(q));
        (*e).cmp_proc_finfo.fn_addr = Some(std::mem::transmute::<Fn_, _>(c));
        e
    }
}
/// timestamp plus an interval of microseconds only
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_pl_interval(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum {
    unsafe { let i = arg(f, 1) as *const pg_sys::Interval; if (*i).day != 0 || (*i).month != 0 { abort() } pg_sys::Datum::from((arg(f, 0) as i64).wrapping_add((*i).time) as usize) }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_justify_hours(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from(arg(f, 0)) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn DirectFunctionCall2Coll(f: Option<Fn_>, _c: pg_sys::Oid, a: pg_sys::Datum, b: pg_sys::Datum) -> pg_sys::Datum {
    unsafe {
        let n = std::mem::size_of::<pg_sys::FunctionCallInfoBaseData>() + 2 * std::mem::size_of::<pg_sys::NullableDatum>();
        let i = zeroed(n) as pg_sys::FunctionCallInfo;
        (*i).nargs = 2;
        (*i).args.as_mut_slice(2)[0] = pg_sys::NullableDatum { value: a, isnull: false };
        (*i).args.as_mut_slice(2)[1] = pg_sys::NullableDatum { value: b, isnull: false };
        f.unwrap()(i)
    }
}
macro_rules! contexts { ($($n:ident)*) => { $( #[unsafe(no_mangle)] pub static mut $n: *mut c_void = 1 as *mut c_void; )* } }
contexts! { CacheMemoryContext CurTransactionContext ErrorContext MessageContext PortalContext PostmasterContext TopTransactionContext }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn get_fn_expr_argtype(_f: *mut pg_sys::FmgrInfo, _i: c_int) -> pg_sys::Oid { unsafe { ARGTYPE } }
pub static mut ARGTYPE: pg_sys::Oid = pg_sys::INT8OID;
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn message_level_is_interesting(_l: c_int) -> bool { true }

// ---- times and intervals (microseconds only), as the lambda language uses them
unsafe fn number(p: usize) -> i64 {
    unsafe {
        let mut p = p as *const u8;
        let (mut v, mut neg) = (0i64, false);
        while *p != 0 { if *p == b'-' { neg = true } else { v = v * 10 + (*p - b'0') as i64 } p = p.add(1); }
        if neg { -v } else { v }
    }
}
unsafe fn span(us: i64) -> pg_sys::Datum { unsafe { let i = zeroed(16) as *mut pg_sys::Interval; (*i).time = us; pg_sys::Datum::from(i as usize) } }
unsafe fn us(f: pg_sys::FunctionCallInfo, i: usize) -> i64 { unsafe { let i = arg(f, i) as *const pg_sys::Interval; if (*i).day != 0 || (*i).month != 0 { abort() } (*i).time } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_in(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from(number(arg(f, 0)) as usize) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_in(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { span(number(arg(f, 0))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn timestamptz_mi_interval(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from((arg(f, 0) as i64).wrapping_sub(us(f, 1)) as usize) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_pl(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { span(us(f, 0).wrapping_add(us(f, 1))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_mi(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { span(us(f, 0).wrapping_sub(us(f, 1))) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_mul(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { span((us(f, 0) as f64 * f64::from_bits(arg(f, 1) as u64)) as i64) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_div(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { span((us(f, 0) as f64 / f64::from_bits(arg(f, 1) as u64)) as i64) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_eq(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { pg_sys::Datum::from((us(f, 0) == us(f, 1)) as usize) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn interval_cmp(f: pg_sys::FunctionCallInfo) -> pg_sys::Datum { unsafe { let (a, b) = (us(f, 0), us(f, 1)); pg_sys::Datum::from(((a > b) as i64 - (a < b) as i64) as usize) } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn DirectFunctionCall3Coll(f: Option<Fn_>, _c: pg_sys::Oid, a: pg_sys::Datum, b: pg_sys::Datum, c: pg_sys::Datum) -> pg_sys::Datum {
    unsafe {
        let n = std::mem::size_of::<pg_sys::FunctionCallInfoBaseData>() + 3 * std::mem::size_of::<pg_sys::NullableDatum>();
        let i = zeroed(n) as pg_sys::FunctionCallInfo;
        (*i).nargs = 3;
        let s = (*i).args.as_mut_slice(3);
        s[0] = pg_sys::NullableDatum { value: a, isnull: false };
        s[1] = pg_sys::NullableDatum { value: b, isnull: false };
        s[2] = pg_sys::NullableDatum { value: c, isnull: false };
        f.unwrap()(i)
    }
}
/// The text of a bigint or a text is three letters that stand for it here, and back: reading gives what was written.
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn getTypeOutputInfo(t: pg_sys::Oid, f: *mut pg_sys::Oid, var: *mut bool) { unsafe { *f = t; *var = t == pg_sys::TEXTOID; } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn getTypeInputInfo(t: pg_sys::Oid, f: *mut pg_sys::Oid, io: *mut pg_sys::Oid) { unsafe { *f = t; *io = t; } }
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn fmgr_info(t: pg_sys::Oid, f: *mut pg_sys::FmgrInfo) { unsafe { (*f).fn_oid = t; } }
static mut WRITTEN: [(pg_sys::Oid, usize); 64] = [(pg_sys::Oid::INVALID, 0); 64];
static mut N_WRITTEN: usize = 0;
/// a copy with a header of four bytes
unsafe fn copy(p: usize) -> usize {
    unsafe {
        let b = bytes(p as *const u8);
        let q = zeroed(b.len() + 4) as *mut u8;
        *(q as *mut u32) = ((b.len() as u32) + 4) << 2;
        for i in 0..b.len() { *q.add(4 + i) = b[i]; }
        q as usize
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn OutputFunctionCall(f: *mut pg_sys::FmgrInfo, d: pg_sys::Datum) -> *mut c_char {
    unsafe {
        let (t, i) = ((*f).fn_oid, N_WRITTEN);
        if i == 64 || (t != pg_sys::INT8OID && t != pg_sys::TEXTOID) { abort() }
        WRITTEN[i] = (t, if t == pg_sys::TEXTOID { copy(d.value()) } else { d.value() });
        N_WRITTEN = i + 1;
        let p = zeroed(4) as *mut u8;
        *p = b'v'; *p.add(1) = b'a' + (i & 7) as u8; *p.add(2) = b'a' + (i >> 3) as u8;
        p as *mut c_char
    }
}
#[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn InputFunctionCall(f: *mut pg_sys::FmgrInfo, s: *mut c_char, _io: pg_sys::Oid, _mod: i32) -> pg_sys::Datum {
    unsafe {
        let s = s as *const u8;
        if *s != b'v' { abort() }
        let (t, v) = WRITTEN[(*s.add(1) - b'a') as usize | ((*s.add(2) - b'a') as usize) << 3];
        if t != (*f).fn_oid || *s.add(3) != 0 { abort() }
        pg_sys::Datum::from(if t == pg_sys::TEXTOID { copy(v) } else { v })
    }
}
/// referenced from code the harnesses reach, but not to be called
macro_rules! never { ($($n:ident)*) => { $( #[unsafe(no_mangle)] pub unsafe extern "C-unwind" fn $n() { unsafe { abort() } } )* } }
never! { GetSysCacheOid LookupExplicitNamespace MyDatabaseId ReleaseSysCache SearchSysCache1 get_namespace_name CopyErrorData DateTimeParseError DecodeDateTime FlushErrorState FreeErrorData FunctionCall1Coll MemoryContextDelete ParseDateTime SetEpochTimestamp errcode errdetail errfinish errhint errmsg get_func_signature regtypein tm2timestamp }
