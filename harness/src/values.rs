//! Generators of values, for generated programs.  Used by `lab`, and by itself in programs that are
//! built without the rest of the harness (`checks::features`).
use crate::run::hash64;
use crate::src::Src;
use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub mod prelude {
    pub use super::Gen;
    pub use crate::src::Src;
    pub use schemars::JsonSchema;
    pub use serde::{Deserialize, Serialize};
    pub use serde_json::Value;
    pub use std::borrow::Cow;
    pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
    pub use std::rc::Rc;
    pub use std::sync::Arc;
}

thread_local! {
    pub static STATE: RefCell<u64> = const { RefCell::new(1) };
    pub static FRESH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static FLAT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static VOCAB: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// Values of a type, drawn from a choice sequence; `d` bounds the depth.
pub trait Gen: Sized {
    fn gen(s: &mut Src, d: usize) -> Self;
}

/// The value of a flattened field: its maps get keys that no other field uses.
pub fn flat<T: Gen>(s: &mut Src, d: usize) -> T {
    let old = FLAT.with(|f| f.replace(true));
    let v = T::gen(s, d);
    FLAT.with(|f| f.set(old));
    v
}

pub fn choices(seed: u64, n: usize) -> Vec<u32> {
    // splitmix64
    let mut x = seed;
    (0..n)
        .map(|_| {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            ((z ^ (z >> 31)) >> 16) as u32
        })
        .collect()
}

/// The value generated from a fixed choice sequence.
pub fn fixed<T: Gen>(n: u64) -> T {
    // (the default of a recursive type may need the default of the type: that one is small)
    thread_local!(static NESTED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    let depth = NESTED.with(|x| x.replace(x.get() + 1));
    let v = if depth < 3 {
        let c = choices(n, 64);
        T::gen(&mut Src::new(&c), 2)
    } else {
        T::gen(&mut Src::new(&[]), 0)
    };
    NESTED.with(|x| x.set(depth));
    v
}
/// For `skip_serializing_if` on a field of any type.
pub fn empty<T: Serialize + ?Sized>(v: &T) -> bool {
    matches!(serde_json::to_string(v).as_deref(), Ok("null" | "[]" | "{}" | "\"\""))
}
/// A fresh value inside a conversion.
pub fn arbitrary<T: Gen>() -> T {
    let k = STATE.with(|s| {
        let mut s = s.borrow_mut();
        if *s != 0 {
            *s = hash64(&*s);
        }
        *s
    });
    let c = choices(k, 64);
    T::gen(&mut Src::new(&c), 2)
}

macro_rules! gen_int {
    ($($t:ty),*) => {$(impl Gen for $t {
        fn gen(s: &mut Src, _: usize) -> Self {
            let lo = <$t>::MIN as i128;
            let hi = <$t>::MAX as i128;
            s.int(lo, hi) as $t
        }
    })*};
}
gen_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Gen for i128 {
    fn gen(s: &mut Src, _: usize) -> Self {
        s.int(i64::MIN as i128, u64::MAX as i128)
    }
}
impl Gen for u128 {
    fn gen(s: &mut Src, _: usize) -> Self {
        s.int(0, u64::MAX as i128) as u128
    }
}
impl Gen for bool {
    fn gen(s: &mut Src, _: usize) -> Self {
        s.bool()
    }
}
impl Gen for () {
    fn gen(_: &mut Src, _: usize) -> Self {}
}
impl Gen for f64 {
    fn gen(s: &mut Src, _: usize) -> Self {
        s.float()
    }
}
impl Gen for f32 {
    fn gen(s: &mut Src, _: usize) -> Self {
        let f = s.float() as f32;
        if f.is_finite() {
            f
        } else {
            2.5
        }
    }
}
impl Gen for char {
    fn gen(s: &mut Src, _: usize) -> Self {
        s.ch()
    }
}
impl Gen for String {
    fn gen(s: &mut Src, _: usize) -> Self {
        if FRESH.with(|f| f.get()) {
            return format!("zk {}", s.string(3));
        }
        match s.below(8) {
            0 | 1 => String::new(),
            2 | 3 => {
                let w = s.next();
                VOCAB.with(|v| {
                    let v = v.borrow();
                    if v.is_empty() {
                        "w".to_string()
                    } else {
                        v[(w as usize) % v.len()].clone()
                    }
                })
            }
            4 => s.ident(3),
            _ => s.string(4),
        }
    }
}
impl Gen for Value {
    fn gen(s: &mut Src, d: usize) -> Self {
        crate::jsongen::value(s, d.min(2), &["a".into()])
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if d == 0 || s.chance(1, 3) {
            None
        } else {
            Some(T::gen(s, d - 1))
        }
    }
}
fn count(s: &mut Src, d: usize) -> usize {
    if d == 0 {
        0
    } else {
        s.below(4)
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        let n = count(s, d);
        (0..n).map(|_| T::gen(s, d - 1)).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        Vec::<T>::gen(s, d).into_iter().collect()
    }
}
impl<T: Gen + Eq + std::hash::Hash> Gen for HashSet<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        Vec::<T>::gen(s, d).into_iter().collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(s: &mut Src, d: usize) -> Self {
        let n = count(s, d);
        let flat = FLAT.with(|f| f.replace(false));
        let v = (0..n)
            .map(|_| {
                FRESH.with(|f| f.set(flat));
                let k = K::gen(s, d - 1);
                FRESH.with(|f| f.set(false));
                (k, V::gen(s, d - 1))
            })
            .collect();
        FLAT.with(|f| f.set(flat));
        v
    }
}
impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for HashMap<K, V> {
    fn gen(s: &mut Src, d: usize) -> Self {
        let n = count(s, d);
        (0..n).map(|_| (K::gen(s, d - 1), V::gen(s, d - 1))).collect()
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(s: &mut Src, d: usize) -> Self {
        std::array::from_fn(|_| T::gen(s, d))
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        Box::new(T::gen(s, d))
    }
}
impl<T: Gen> Gen for std::rc::Rc<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        std::rc::Rc::new(T::gen(s, d))
    }
}
impl<T: Gen> Gen for std::sync::Arc<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        std::sync::Arc::new(T::gen(s, d))
    }
}
impl<T> Gen for std::marker::PhantomData<T> {
    fn gen(_: &mut Src, _: usize) -> Self {
        std::marker::PhantomData
    }
}
impl<'a, T: Gen + ToOwned<Owned = T>> Gen for std::borrow::Cow<'a, T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        std::borrow::Cow::Owned(T::gen(s, d))
    }
}
macro_rules! gen_tuple {
    ($($t:ident),*) => {impl<$($t: Gen),*> Gen for ($($t,)*) {
        fn gen(s: &mut Src, d: usize) -> Self { ($($t::gen(s, d),)*) }
    }};
}
gen_tuple!(A);
gen_tuple!(A, B);
gen_tuple!(A, B, C);
gen_tuple!(A, B, C, D);
gen_tuple!(A, B, C, D, E);
gen_tuple!(A, B, C, D, E, F);
gen_tuple!(A, B, C, D, E, F, G);
gen_tuple!(A, B, C, D, E, F, G, H);
gen_tuple!(A, B, C, D, E, F, G, H, I);
gen_tuple!(A, B, C, D, E, F, G, H, I, J);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K, L);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K, L, M);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K, L, M, N);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O);
gen_tuple!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P);

/// `#[serde(with = "vh::lab::as_str")]`: the value's Display form as a string.
pub mod as_str {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<T: std::fmt::Display, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(v)
    }
    pub fn deserialize<'de, T: std::str::FromStr, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        String::deserialize(d)?.parse().map_err(|_| serde::de::Error::custom("does not parse"))
    }
}
