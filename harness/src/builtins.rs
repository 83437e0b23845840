//! Types with built-in JsonSchema implementations: random compositions as Rust source, with an
//! independent model of their JSON form.
use crate::src::Src;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct BTy {
    pub rust: String,
    /// model of the serialized form and of the deserializable form
    pub ser: Value,
    pub de: Value,
    pub has_de: bool,
    pub ord: bool,
    pub hash: bool,
    pub copy: bool,
    pub clone: bool,
    /// usable as a map key: "str", "int", "uint" or "any" (keys not described)
    pub key: Option<&'static str>,
}

fn leaf(rust: &str, m: Value, caps: &str, key: Option<&'static str>) -> BTy {
    BTy { rust: rust.into(), ser: m.clone(), de: m, has_de: true, ord: caps.contains('o'), hash: caps.contains('h'), copy: caps.contains('c'), clone: !caps.contains('x'), key }
}
fn string(rust: &str, caps: &str, key: bool) -> BTy {
    leaf(rust, json!({"k": "str"}), caps, if key { Some("str") } else { None })
}
fn int(rust: &str, lo: Option<i128>, hi: Option<i128>, fmt: &str, nonzero: bool, caps: &str, key: bool) -> BTy {
    let n = |x: Option<i128>| x.map(|x| x.to_string());
    let k = if lo == Some(0) { "uint" } else { "int" };
    leaf(rust, json!({"k": "int", "min": n(lo), "max": n(hi), "nonzero": nonzero, "format": fmt}), caps, if key { Some(k) } else { None })
}

pub fn leaves() -> Vec<BTy> {
    let mut v = vec![];
    let ints: [(&str, &str, Option<i128>, Option<i128>, &str); 12] = [
        ("i8", "I8", Some(-128), Some(127), "int8"),
        ("i16", "I16", Some(-32768), Some(32767), "int16"),
        ("i32", "I32", None, None, "int32"),
        ("i64", "I64", None, None, "int64"),
        ("i128", "I128", None, None, "int128"),
        ("isize", "Isize", None, None, "int"),
        ("u8", "U8", Some(0), Some(255), "uint8"),
        ("u16", "U16", Some(0), Some(65535), "uint16"),
        ("u32", "U32", Some(0), None, "uint32"),
        ("u64", "U64", Some(0), None, "uint64"),
        ("u128", "U128", Some(0), None, "uint128"),
        ("usize", "Usize", Some(0), None, "uint"),
    ];
    for (p, c, lo, hi, fmt) in ints {
        v.push(int(p, lo, hi, fmt, false, "ohc", true));
        let lo_nz = if lo == Some(0) { Some(1) } else { lo };
        let mut nz = int(&format!("NonZero{c}"), lo_nz, hi, fmt, true, "ohc", false);
        // (the key pattern does not exclude zero)
        nz.key = Some("int");
        v.push(nz);
        if !p.contains("128") {
            v.push(int(&format!("Atomic{c}"), lo, hi, fmt, false, "x", false));
        }
        v.push(int(&format!("Wrapping<{p}>"), lo, hi, fmt, false, "ohc", true));
    }
    v.push(leaf("bool", json!({"k": "bool"}), "ohc", Some("any")));
    v.push(leaf("AtomicBool", json!({"k": "bool"}), "x", None));
    v.push(leaf("()", json!({"k": "null"}), "ohc", None));
    v.push(leaf("f32", json!({"k": "num", "format": "float"}), "c", None));
    v.push(leaf("f64", json!({"k": "num", "format": "double"}), "c", None));
    v.push(leaf("Number", json!({"k": "num"}), "", None));
    v.push(leaf("char", json!({"k": "char"}), "ohc", Some("any")));
    for t in ["String", "Box<str>", "PathBuf", "smol_str02::SmolStr", "smol_str03::SmolStr", "arrayvec07::ArrayString<6>", "Rc<str>", "Arc<str>", "Cow<'static, str>"] {
        v.push(string(t, "oh", true));
    }
    for t in ["Ipv4Addr", "Ipv6Addr", "IpAddr", "SocketAddr", "SocketAddrV4", "SocketAddrV6", "uuid1::Uuid", "chrono04::NaiveDate", "chrono04::NaiveTime", "chrono04::NaiveDateTime", "chrono04::DateTime<chrono04::Utc>", "chrono04::DateTime<chrono04::FixedOffset>"] {
        v.push(string(t, "ohc", true));
    }
    for t in ["jiff02::SignedDuration", "jiff02::Timestamp", "jiff02::civil::Date", "jiff02::civil::Time", "jiff02::civil::DateTime"] {
        v.push(string(t, "ohc", true));
    }
    v.push(string("jiff02::Zoned", "oh", true));
    v.push(string("jiff02::Span", "c", false));
    v.push(string("url2::Url", "oh", true));
    v.push(string("semver1::Version", "oh", true));
    v.push(leaf("chrono04::Weekday", json!({"k": "enum", "vs": ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]}), "hc", Some("any")));
    let nanos = json!({"k": "int", "min": "0", "max": null, "format": "none"});
    let td = json!({"k": "tup", "ts": [{"k": "int", "min": null, "max": null, "format": "none"}, {"k": "int", "min": "0", "max": "999999999", "format": "none"}]});
    v.push(leaf("chrono04::TimeDelta", td, "ohc", None));
    let secs = json!({"k": "int", "min": "0", "max": null, "format": "none"});
    v.push(leaf("Duration", json!({"k": "obj", "fs": {"secs": secs, "nanos": nanos}}), "ohc", None));
    v.push(leaf("SystemTime", json!({"k": "obj", "fs": {"secs_since_epoch": secs, "nanos_since_epoch": nanos}}), "ohc", None));
    let bytes = |lo: &str, w: &str| json!({"k": "seq", "t": {"k": "int", "min": lo, "max": w, "format": "none"}});
    v.push(leaf("OsString", json!({"k": "alt", "ts": [{"k": "obj", "fs": {"Unix": bytes("0", "255")}}, {"k": "obj", "fs": {"Windows": bytes("0", "65535")}}]}), "oh", None));
    let mut c = leaf("CString", bytes("1", "255"), "oh", None);
    c.de = json!({"k": "alt", "ts": [{"k": "str"}, bytes("1", "255")]});
    v.push(c.clone());
    let mut b = leaf("bytes1::Bytes", bytes("0", "255"), "oh", None);
    b.de = json!({"k": "alt", "ts": [{"k": "str"}, bytes("0", "255")]});
    v.push(b.clone());
    b.rust = "bytes1::BytesMut".into();
    v.push(b);
    for t in ["rust_decimal1::Decimal", "bigdecimal04::BigDecimal"] {
        let mut d = string(t, if t.starts_with('r') { "ohc" } else { "oh" }, false);
        d.de = json!({"k": "alt", "ts": [{"k": "str"}, {"k": "num"}]});
        v.push(d);
    }
    v.push(leaf("Value", json!({"k": "any"}), "", None));
    v.push(leaf("Box<RawValue>", json!({"k": "any"}), "", None));
    v.push(leaf("Map<String, Value>", json!({"k": "map", "key": "str", "v": {"k": "any"}}), "", None));
    v.push(leaf("PhantomData<String>", json!({"k": "null"}), "ohc", None));
    v.push(leaf("PhantomData<Value>", json!({"k": "null"}), "c", None));
    v
}

fn both(a: &BTy, rust: String, f: impl Fn(&Value) -> Value) -> BTy {
    BTy { rust, ser: f(&a.ser), de: f(&a.de), key: None, copy: false, ..a.clone() }
}
fn two(a: &BTy, b: &BTy, rust: String, f: impl Fn(&Value, &Value) -> Value) -> BTy {
    BTy { rust, ser: f(&a.ser, &b.ser), de: f(&a.de, &b.de), has_de: a.has_de && b.has_de, ord: a.ord && b.ord, hash: a.hash && b.hash, copy: false, clone: a.clone && b.clone, key: None }
}
fn none(t: BTy, caps: &str) -> BTy {
    BTy { ord: t.ord && caps.contains('o'), hash: t.hash && caps.contains('h'), copy: t.copy && caps.contains('c'), clone: t.clone && !caps.contains('x'), ..t }
}

pub struct BGen {
    pub leaves: Vec<BTy>,
}

impl BGen {
    pub fn leaf(&self, s: &mut Src) -> BTy {
        self.leaves[s.below(self.leaves.len())].clone()
    }
    fn some(&self, s: &mut Src, d: usize, ok: impl Fn(&BTy) -> bool) -> BTy {
        for _ in 0..6 {
            let t = self.ty(s, d);
            if ok(&t) {
                return t;
            }
        }
        self.leaves[0].clone()
    }
    fn key(&self, s: &mut Src, hash: bool) -> BTy {
        let c: Vec<&BTy> = self.leaves.iter().filter(|t| t.key.is_some() && if hash { t.hash } else { t.ord }).collect();
        (*s.pick(&c)).clone()
    }
    pub fn ty(&self, s: &mut Src, d: usize) -> BTy {
        if d == 0 {
            return self.leaf(s);
        }
        match s.below(34) {
            0 => self.leaf(s),
            1..=3 => {
                let a = self.ty(s, d - 1);
                none(both(&a, format!("Option<{}>", a.rust), |m| json!({"k": "opt", "t": m})), "ohc")
            }
            4..=7 => {
                let k = s.below(8);
                let a = if k == 7 { self.some(s, d - 1, |t| t.ord) } else { self.ty(s, d - 1) };
                let r = &a.rust;
                let (rust, caps) = match k {
                    0 => (format!("Vec<{r}>"), "oh"),
                    1 => (format!("VecDeque<{r}>"), "oh"),
                    2 => (format!("LinkedList<{r}>"), "oh"),
                    3 => (format!("Box<[{r}]>"), "oh"),
                    4 => (format!("smallvec1::SmallVec<[{r}; 2]>"), "oh"),
                    5 => (format!("Rc<[{r}]>"), "oh"),
                    6 => (format!("Arc<[{r}]>"), "oh"),
                    _ => (format!("BinaryHeap<{r}>"), ""),
                };
                none(both(&a, rust, |m| json!({"k": "seq", "t": m})), caps)
            }
            8 | 9 => match s.below(3) {
                0 => {
                    let a = self.some(s, d - 1, |t| t.ord);
                    none(both(&a, format!("BTreeSet<{}>", a.rust), |m| json!({"k": "set", "t": m})), "oh")
                }
                k => {
                    let a = self.some(s, d - 1, |t| t.hash);
                    none(both(&a, format!("{}<{}>", if k == 1 { "HashSet" } else { "indexmap2::IndexSet" }, a.rust), |m| json!({"k": "set", "t": m})), "")
                }
            },
            10..=13 => {
                let k = s.below(3);
                let key = self.key(s, k > 0);
                let a = self.ty(s, d - 1);
                let rust = format!("{}<{}, {}>", ["BTreeMap", "HashMap", "indexmap2::IndexMap"][k], key.rust, a.rust);
                let kk = if key.rust == "chrono04::Weekday" { json!(["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]) } else { json!(key.key.unwrap()) };
                let mut t = both(&a, rust, |m| json!({"k": "map", "key": kk, "v": m}));
                t = none(t, if k == 0 { "oh" } else { "" });
                t.ord &= key.ord;
                t.hash &= key.hash;
                t
            }
            14..=17 => {
                let n = 1 + if s.chance(1, 4) { s.below(16) } else { s.below(4) };
                let ts: Vec<BTy> = (0..n).map(|_| self.ty(s, if n > 4 { 0 } else { d - 1 })).collect();
                let rust = format!("({},)", ts.iter().map(|t| t.rust.as_str()).collect::<Vec<_>>().join(", "));
                // (std implements traits for tuples of up to 12)
                let small = n <= 12;
                BTy {
                    rust,
                    ser: json!({"k": "tup", "ts": ts.iter().map(|t| t.ser.clone()).collect::<Vec<_>>()}),
                    de: json!({"k": "tup", "ts": ts.iter().map(|t| t.de.clone()).collect::<Vec<_>>()}),
                    has_de: ts.iter().all(|t| t.has_de),
                    ord: small && ts.iter().all(|t| t.ord),
                    hash: small && ts.iter().all(|t| t.hash),
                    copy: false,
                    clone: small && ts.iter().all(|t| t.clone),
                    key: None,
                }
            }
            18 | 19 => {
                let n = if s.bool() { s.below(5) } else { s.below(33) };
                let a = self.ty(s, if n > 4 { 0 } else { d - 1 });
                none(both(&a, format!("[{}; {n}]", a.rust), |m| json!({"k": "arr", "n": n, "t": m})), "oh")
            }
            20 | 21 => {
                let (a, b) = (self.ty(s, d - 1), self.ty(s, d - 1));
                let e = s.chance(1, 3);
                let (n, l, r) = if e { ("either1::Either", "Left", "Right") } else { ("Result", "Ok", "Err") };
                two(&a, &b, format!("{n}<{}, {}>", a.rust, b.rust), |x, y| json!({"k": "alt", "ts": [{"k": "obj", "fs": {l: x}}, {"k": "obj", "fs": {r: y}}]}))
            }
            22 => {
                let a = self.ty(s, d - 1);
                none(both(&a, format!("Bound<{}>", a.rust), |m| json!({"k": "alt", "ts": [{"k": "obj", "fs": {"Included": m}}, {"k": "obj", "fs": {"Excluded": m}}, {"k": "enum", "vs": ["Unbounded"]}]})), "h")
            }
            23 => {
                let a = self.ty(s, d - 1);
                let n = if s.bool() { "Range" } else { "RangeInclusive" };
                none(both(&a, format!("{n}<{}>", a.rust), |m| json!({"k": "obj", "fs": {"start": m, "end": m}})), "h")
            }
            24 => {
                let a = self.ty(s, d - 1);
                let n = s.below(4);
                none(both(&a, format!("arrayvec07::ArrayVec<{}, {n}>", a.rust), |m| json!({"k": "seq", "t": m, "max": n})), "oh")
            }
            25..=29 => {
                let a = self.ty(s, d - 1);
                let (rust, caps) = match s.below(8) {
                    0 => (format!("Box<{}>", a.rust), "oh"),
                    1 => (format!("Rc<{}>", a.rust), "oh"),
                    2 => (format!("Arc<{}>", a.rust), "oh"),
                    3 => (format!("RefCell<{}>", a.rust), "o"),
                    4 => (format!("Mutex<{}>", a.rust), "x"),
                    5 => (format!("RwLock<{}>", a.rust), "x"),
                    6 if a.clone => (format!("Cow<'static, {}>", a.rust), "oh"),
                    7 if a.copy => (format!("Cell<{}>", a.rust), "o"),
                    _ => (format!("Reverse<{}>", a.rust), "oh"),
                };
                let clone = rust.starts_with("Rc") || rust.starts_with("Arc");
                let mut t = none(both(&a, rust, Value::clone), caps);
                t.clone |= clone;
                t
            }
            30 => {
                let a = self.ty(s, d - 1);
                let w = if s.bool() { "RcWeak" } else { "SyncWeak" };
                let mut t = none(both(&a, format!("{w}<{}>", a.rust), |m| json!({"k": "opt", "t": m})), "");
                t.clone = true;
                t
            }
            31 => {
                let a = self.ty(s, d - 1);
                let mut t = none(both(&a, format!("&'static {}", a.rust), Value::clone), "ohc");
                t.has_de = false;
                t.clone = true;
                t
            }
            _ => self.leaf(s),
        }
    }
}
