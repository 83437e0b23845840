//! Value generators for the standard-library and third-party types with a JsonSchema implementation.
use crate::lab::Gen;
use crate::src::Src;
pub use {
    arrayvec07, bigdecimal04, bytes1, chrono04, either1, indexmap2, jiff02, rust_decimal1, semver1, smallvec1, smol_str02, smol_str03, url2, uuid1,
};
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, LinkedList, VecDeque};
use std::ffi::{CString, OsString};
use std::net::*;
use std::num::*;
use std::ops::{Bound, Range, RangeInclusive};
use std::path::PathBuf;
use std::sync::atomic::*;
use std::sync::{Mutex, RwLock};

pub mod prelude {
    pub use super::{arrayvec07, bigdecimal04, bytes1, chrono04, either1, indexmap2, jiff02, rust_decimal1, semver1, smallvec1, smol_str02, smol_str03, url2, uuid1};
    pub use super::{RcWeak, SyncWeak};
    pub use std::cell::{Cell, RefCell};
    pub use std::cmp::Reverse;
    pub use std::collections::{BinaryHeap, LinkedList, VecDeque};
    pub use std::ffi::{CString, OsString};
    pub use std::marker::PhantomData;
    pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
    pub use std::num::*;
    pub use std::ops::{Bound, Range, RangeInclusive};
    pub use std::path::PathBuf;
    pub use std::sync::atomic::*;
    pub use std::sync::{Mutex, RwLock};
    pub use std::time::{Duration, SystemTime};
    pub use serde_json::value::RawValue;
    pub use serde_json::{Map, Number};
}

macro_rules! gen_as {
    ($($t:ty = |$s:ident, $d:ident| $e:expr;)*) => {$(impl Gen for $t { fn gen($s: &mut Src, $d: usize) -> Self { let _ = $d; $e } })*};
}

macro_rules! nonzero {
    ($($t:ident $p:ty),*) => {$(impl Gen for $t {
        fn gen(s: &mut Src, d: usize) -> Self { $t::new(<$p>::gen(s, d)).unwrap_or($t::MIN) }
    })*};
}
nonzero!(NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize);
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize);
macro_rules! atomic {
    ($($t:ident $p:ty),*) => {$(impl Gen for $t {
        fn gen(s: &mut Src, d: usize) -> Self { $t::new(<$p>::gen(s, d)) }
    })*};
}
atomic!(AtomicBool bool, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize);

fn v4(s: &mut Src) -> Ipv4Addr {
    Ipv4Addr::from(s.int(0, u32::MAX as i128) as u32)
}
fn v6(s: &mut Src) -> Ipv6Addr {
    match s.below(4) {
        0 => Ipv6Addr::LOCALHOST,
        1 => Ipv6Addr::UNSPECIFIED,
        2 => v4(s).to_ipv6_mapped(),
        _ => Ipv6Addr::from(((s.u64() as u128) << 64) | s.u64() as u128),
    }
}
fn days(s: &mut Src) -> chrono04::NaiveDate {
    let y = match s.below(4) {
        0 => 1970,
        1 => s.below(10000) as i32,
        2 => *s.pick(&[0, 1, 9999, 1600, 2000, 1900]),
        _ => 1990 + s.below(60) as i32,
    };
    let n = 1 + s.below(366) as u32;
    chrono04::NaiveDate::from_yo_opt(y, n).unwrap_or_else(|| chrono04::NaiveDate::from_yo_opt(y, 1).unwrap())
}
fn ctime(s: &mut Src) -> chrono04::NaiveTime {
    let secs = s.int(0, 86399) as u32;
    let mut n = match s.below(4) {
        0 => 0,
        1 => s.below(1000) as u32 * 1_000_000,
        2 => s.below(1_000_000) as u32 * 1000,
        _ => s.below(1_000_000_000) as u32,
    };
    if secs % 60 == 59 && s.chance(1, 3) {
        n += 1_000_000_000;
    }
    chrono04::NaiveTime::from_num_seconds_from_midnight_opt(secs, n).unwrap()
}
fn jdate(s: &mut Src) -> jiff02::civil::Date {
    let y = match s.below(3) {
        0 => s.int(0, 9999) as i16,
        1 => *s.pick(&[0i16, 1, 9999, 2000]),
        _ => 1990 + s.below(60) as i16,
    };
    jiff02::civil::Date::new(y, 1 + s.below(12) as i8, 1 + s.below(28) as i8).unwrap()
}
fn jtime(s: &mut Src) -> jiff02::civil::Time {
    let n = match s.below(3) {
        0 => 0,
        1 => s.below(1000) as i32 * 1_000_000,
        _ => s.below(1_000_000_000) as i32,
    };
    jiff02::civil::Time::new(s.below(24) as i8, s.below(60) as i8, s.below(60) as i8, n).unwrap()
}
fn jstamp(s: &mut Src) -> jiff02::Timestamp {
    let n = if s.bool() { 0 } else { s.below(1_000_000_000) as i32 };
    // years 1..9999
    jiff02::Timestamp::new(s.int(-62_000_000_000, 253_000_000_000) as i64, n).unwrap()
}

gen_as! {
    std::time::Duration = |s, d| std::time::Duration::new(u64::gen(s, d), s.int(0, 999_999_999) as u32);
    std::time::SystemTime = |s, d| std::time::UNIX_EPOCH + std::time::Duration::new(s.int(0, 1 << 40) as u64, s.int(0, 999_999_999) as u32);
    PathBuf = |s, d| PathBuf::from(String::gen(s, d));
    OsString = |s, d| OsString::from(String::gen(s, d));
    CString = |s, d| CString::new(Vec::<u8>::gen(s, d.max(1)).into_iter().map(|b| b.max(1)).collect::<Vec<u8>>()).unwrap();
    Ipv4Addr = |s, d| v4(s);
    Ipv6Addr = |s, d| v6(s);
    IpAddr = |s, d| if s.bool() { v6(s).into() } else { v4(s).into() };
    SocketAddrV4 = |s, d| SocketAddrV4::new(v4(s), u16::gen(s, d));
    SocketAddrV6 = |s, d| SocketAddrV6::new(v6(s), u16::gen(s, d), 0, 0);
    SocketAddr = |s, d| if s.bool() { SocketAddrV6::gen(s, d).into() } else { SocketAddrV4::gen(s, d).into() };
    serde_json::Number = |s, d| match s.below(3) { 0 => i64::gen(s, d).into(), 1 => u64::gen(s, d).into(), _ => serde_json::Number::from_f64(s.float()).unwrap() };
    serde_json::Map<String, serde_json::Value> = |s, d| std::collections::BTreeMap::<String, serde_json::Value>::gen(s, d.max(1)).into_iter().collect();
    Box<serde_json::value::RawValue> = |s, d| serde_json::value::to_raw_value(&serde_json::Value::gen(s, d)).unwrap();
    Box<str> = |s, d| String::gen(s, d).into();
    std::rc::Rc<str> = |s, d| String::gen(s, d).into();
    std::sync::Arc<str> = |s, d| String::gen(s, d).into();
    std::borrow::Cow<'static, str> = |s, d| String::gen(s, d).into();
    chrono04::NaiveDate = |s, d| days(s);
    chrono04::NaiveTime = |s, d| ctime(s);
    chrono04::NaiveDateTime = |s, d| chrono04::NaiveDateTime::new(days(s), ctime(s));
    chrono04::DateTime<chrono04::Utc> = |s, d| chrono04::NaiveDateTime::new(days(s), ctime(s)).and_utc();
    chrono04::DateTime<chrono04::FixedOffset> = |s, d| {
        let o = (s.below(1439) as i32 - 719) * 60;
        chrono04::NaiveDateTime::gen(s, d).and_local_timezone(chrono04::FixedOffset::east_opt(o).unwrap()).unwrap()
    };
    chrono04::Weekday = |s, d| chrono04::Weekday::try_from(s.below(7) as u8).unwrap();
    chrono04::TimeDelta = |s, d| {
        let secs = match s.below(3) { 0 => s.int(-5, 5), 1 => s.int(-9_000_000_000_000_000, 9_000_000_000_000_000), _ => s.int(-100000, 100000) };
        chrono04::TimeDelta::new(secs as i64, s.int(0, 999_999_999) as u32).unwrap()
    };
    jiff02::SignedDuration = |s, d| jiff02::SignedDuration::from_nanos(s.int(-10_000_000_000_000_000, 10_000_000_000_000_000) as i64);
    jiff02::Span = |s, d| {
        let neg = s.bool();
        let mut n = |s: &mut Src, k: i64| if s.bool() { 0 } else { s.int(0, k as i128) as i64 };
        let sp = jiff02::Span::new().years(n(s, 100)).months(n(s, 30)).weeks(n(s, 20)).days(n(s, 1000)).hours(n(s, 5000)).minutes(n(s, 500)).seconds(n(s, 5000)).milliseconds(n(s, 5000)).nanoseconds(n(s, 5000));
        if neg { sp.negate() } else { sp }
    };
    jiff02::Timestamp = |s, d| jstamp(s);
    jiff02::Zoned = |s, d| {
        let tz = if s.bool() { jiff02::tz::TimeZone::UTC } else { jiff02::tz::TimeZone::fixed(jiff02::tz::Offset::from_seconds((s.below(1439) as i32 - 719) * 60).unwrap()) };
        jstamp(s).to_zoned(tz)
    };
    jiff02::civil::Date = |s, d| jdate(s);
    jiff02::civil::Time = |s, d| jtime(s);
    jiff02::civil::DateTime = |s, d| jdate(s).to_datetime(jtime(s));
    rust_decimal1::Decimal = |s, d| rust_decimal1::Decimal::from_i128_with_scale(s.int(-(1 << 90), 1 << 90), s.below(29) as u32);
    bigdecimal04::BigDecimal = |s, d| {
        let (n, k) = if s.chance(1, 6) { (s.int(-(1 << 90), 1 << 90), s.int(-40, 60)) } else { (s.int(-(1 << 60), 1 << 60), s.int(0, 6)) };
        bigdecimal04::BigDecimal::new(n.into(), k as i64)
    };
    bytes1::Bytes = |s, d| Vec::<u8>::gen(s, d.max(1)).into();
    bytes1::BytesMut = |s, d| bytes1::BytesMut::from(&Vec::<u8>::gen(s, d.max(1))[..]);
    url2::Url = |s, d| {
        let base = *s.pick(&["http://a.b/", "https://u:p@h:8080/p", "file:///tmp/x", "mailto:a@b.c", "data:text/plain,hi", "ftp://[::1]/"]);
        let mut u = url2::Url::parse(base).unwrap();
        if s.bool() { u.set_query(Some(&s.string(4))); }
        if s.bool() { u.set_fragment(Some(&s.string(4))); }
        if s.bool() && !u.cannot_be_a_base() { u.set_path(&s.string(6)); }
        u
    };
    uuid1::Uuid = |s, d| match s.below(4) { 0 => uuid1::Uuid::nil(), 1 => uuid1::Uuid::max(), _ => uuid1::Uuid::from_u128(((s.u64() as u128) << 64) | s.u64() as u128) };
    semver1::Version = |s, d| {
        let mut v = semver1::Version::new(u64::gen(s, d), s.below(30) as u64, s.below(3) as u64);
        let ids = ["alpha", "0", "1", "-", "rc-1", "0a", "x-y", "10", "A1", "--0"];
        if s.bool() {
            let n = 1 + s.below(3);
            v.pre = semver1::Prerelease::new(&(0..n).map(|_| *s.pick(&ids)).collect::<Vec<_>>().join(".")).unwrap();
        }
        if s.bool() {
            let n = 1 + s.below(3);
            v.build = semver1::BuildMetadata::new(&(0..n).map(|_| *s.pick(&["001", "b", "-", "9", "exp-2"])).collect::<Vec<_>>().join(".")).unwrap();
        }
        v
    };
    smol_str02::SmolStr = |s, d| String::gen(s, d).into();
    smol_str03::SmolStr = |s, d| String::gen(s, d).into();
}
impl<const N: usize> Gen for arrayvec07::ArrayString<N> {
    fn gen(s: &mut Src, d: usize) -> Self {
        let mut a = Self::new();
        for c in String::gen(s, d).chars() {
            if a.try_push(c).is_err() {
                break;
            }
        }
        a
    }
}
impl<T: Gen, const N: usize> Gen for arrayvec07::ArrayVec<T, N> {
    fn gen(s: &mut Src, d: usize) -> Self {
        let n = if d == 0 { 0 } else { s.below(N + 1) };
        (0..n).map(|_| T::gen(s, d - 1)).collect()
    }
}
macro_rules! seqs {
    ($($t:ty: $($b:path),*;)*) => {$(impl<T: Gen $(+ $b)*> Gen for $t {
        fn gen(s: &mut Src, d: usize) -> Self { Vec::<T>::gen(s, d).into_iter().collect() }
    })*};
}
seqs! {
    VecDeque<T>: ;
    LinkedList<T>: ;
    Box<[T]>: ;
    std::rc::Rc<[T]>: ;
    std::sync::Arc<[T]>: ;
    BinaryHeap<T>: Ord;
    indexmap2::IndexSet<T>: Eq, std::hash::Hash;
    smallvec1::SmallVec<[T; 2]>: ;
}
impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for indexmap2::IndexMap<K, V> {
    fn gen(s: &mut Src, d: usize) -> Self {
        std::collections::HashMap::<K, V>::gen(s, d).into_iter().collect()
    }
}
macro_rules! wraps {
    ($($t:ty = $f:expr;)*) => {$(impl<T: Gen> Gen for $t {
        fn gen(s: &mut Src, d: usize) -> Self { $f(T::gen(s, d)) }
    })*};
}
wraps! {
    RefCell<T> = RefCell::new;
    Cell<T> = Cell::new;
    Mutex<T> = Mutex::new;
    RwLock<T> = RwLock::new;
    Reverse<T> = Reverse;
    Wrapping<T> = Wrapping;
}
impl<T: Gen> Gen for &'static T {
    fn gen(s: &mut Src, d: usize) -> Self {
        Box::leak(Box::new(T::gen(s, d)))
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if s.bool() {
            Err(E::gen(s, d))
        } else {
            Ok(T::gen(s, d))
        }
    }
}
impl<T: Gen, E: Gen> Gen for either1::Either<T, E> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if s.bool() {
            either1::Either::Right(E::gen(s, d))
        } else {
            either1::Either::Left(T::gen(s, d))
        }
    }
}
impl<T: Gen> Gen for Bound<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        match s.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::gen(s, d)),
            _ => Bound::Excluded(T::gen(s, d)),
        }
    }
}
impl<T: Gen> Gen for Range<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        T::gen(s, d)..T::gen(s, d)
    }
}
impl<T: Gen> Gen for RangeInclusive<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        T::gen(s, d)..=T::gen(s, d)
    }
}
/// Weak pointers, half of them dangling (the strong side is leaked).
pub type RcWeak<T> = std::rc::Weak<T>;
pub type SyncWeak<T> = std::sync::Weak<T>;
impl<T: Gen> Gen for RcWeak<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if s.bool() {
            let r = std::rc::Rc::new(T::gen(s, d));
            let w = std::rc::Rc::downgrade(&r);
            std::mem::forget(r);
            w
        } else {
            std::rc::Weak::new()
        }
    }
}
impl<T: Gen> Gen for SyncWeak<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if s.bool() {
            let r = std::sync::Arc::new(T::gen(s, d));
            let w = std::sync::Arc::downgrade(&r);
            std::mem::forget(r);
            w
        } else {
            std::sync::Weak::new()
        }
    }
}
