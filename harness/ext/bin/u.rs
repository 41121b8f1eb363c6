// Shared by the harnesses of the extension.
pub use pgrx::{datum::Internal, pg_sys, AnyElement, FromDatum};
pub use timescaledb_toolkit::verif::raw;
/// the aggregate functions take a null call info for "called directly"
pub const FC: pg_sys::FunctionCallInfo = std::ptr::null_mut();
pub fn none() -> Internal { Internal::from(None) }
pub fn state(s: Option<Internal>) -> Internal { s.unwrap_or_else(none) }
/// a second handle on the same state
pub fn again(s: &Internal) -> Internal { { use pgrx::IntoDatum; let d = unsafe { std::ptr::read(s) }.into_datum(); Internal::from(d) } }
/// a call info for functions that ask for the types of their arguments (all are bigint here)
pub fn fcinfo() -> pg_sys::FunctionCallInfo {
    let n = std::mem::size_of::<pg_sys::FunctionCallInfoBaseData>() + 4 * std::mem::size_of::<pg_sys::NullableDatum>();
    let f = vec![0u64; n / 8 + 1].leak();
    let l = vec![0u64; std::mem::size_of::<pg_sys::FmgrInfo>() / 8 + 1].leak();
    let f = f.as_mut_ptr() as pg_sys::FunctionCallInfo;
    unsafe { (*f).flinfo = l.as_mut_ptr() as *mut pg_sys::FmgrInfo; }
    f
}
pub fn elem(v: i64) -> AnyElement { unsafe { AnyElement::from_polymorphic_datum(pg_sys::Datum::from(v), false, pg_sys::INT8OID).unwrap() } }
pub fn opt(v: Option<i64>) -> Option<AnyElement> { v.map(elem) }
pub fn unelem(e: &AnyElement) -> i64 { e.datum().value() as i64 }
pub fn ts(v: i64) -> raw::TimestampTz { raw::TimestampTz(pg_sys::Datum::from(v)) }
pub fn unts(v: raw::TimestampTz) -> i64 { v.0.value() as i64 }
pub fn interval(us: i64) -> raw::Interval {
    let i = vec![us, 0].leak();
    raw::Interval(pg_sys::Datum::from(i.as_ptr() as usize))
}
pub fn uninterval(i: &raw::Interval) -> i64 { unsafe { (*(i.0.value() as *const pg_sys::Interval)).time } }
/// written as the bytes of a stored value and read back, as between two SQL calls
pub fn stored<T: pgrx::IntoDatum + FromDatum>(x: T) -> T { unsafe { T::from_polymorphic_datum(x.into_datum().unwrap(), false, pg_sys::Oid::INVALID).unwrap() } }
