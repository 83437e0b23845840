//! C19: built-in type schemas against serde and an independent model of each type's JSON form.
use crate::builtins::{BGen, BTy};
use crate::eval::{self, Eval, Mode};
use crate::jsongen;
use crate::lab::{self, Ctx};
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::fmt::Write;

pub fn c19() -> Check {
    Check::new("C19", "a document checked against a built-in type's schema that is not a bare scalar of the expected kind (distinct by type and document)")
}
pub fn run_c19(ck: &mut Check) {
    ck.assume("serde_json::to_string and from_str decide how values of the types serialize and parse");
    let g = BGen { leaves: crate::builtins::leaves() };
    let generate = |name: &str, s: &mut Src| {
        let i: usize = name[1..].parse().unwrap();
        let mut ts: Vec<BTy> = (0..2).map(|k| g.leaves[(2 * i + k) % g.leaves.len()].clone()).collect();
        for _ in 0..6 {
            let d = 1 + s.below(3);
            ts.push(g.ty(s, d));
        }
        unit(name, &ts)
    };
    labrun::campaign(ck, &Lab { name: "c19", units: (130, 500), unit_len: 400, cases: (600, 6000), case_len: 120, report_compile_errors: false, generate: &generate });
}
fn unit(name: &str, ts: &[BTy]) -> UnitSrc {
    let mut o = format!("pub mod {name} {{\n    use vh::lab::prelude::*;\n    use vh::ext::prelude::*;\n");
    let mut roots = vec![];
    for (i, t) in ts.iter().enumerate() {
        writeln!(o, "    pub type R{i} = {};", t.rust).unwrap();
        let p = format!("{name}::R{i}");
        roots.push(format!("vh::lab::Root::new::<{p}>({}).ser::<{p}>(){}", crate::tyspec::lit(&t.rust), if t.has_de { format!(".de::<{p}>()") } else { String::new() }));
    }
    o.push_str("}\n");
    let meta: Vec<Value> = ts.iter().map(|t| json!({"ser": t.ser, "de": t.de})).collect();
    UnitSrc { source: o, roots, meta: json!({"types": meta}) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    /// not known to be wrong
    Ok,
    /// wrong for the schema (serde may read objects from arrays)
    Schema,
    Reject,
}
fn all(it: impl Iterator<Item = M>) -> M {
    let mut r = M::Ok;
    for x in it {
        match x {
            M::Reject => return M::Reject,
            M::Schema => r = M::Schema,
            M::Ok => {}
        }
    }
    r
}
fn no(b: bool) -> M {
    if b {
        M::Reject
    } else {
        M::Ok
    }
}
fn bound(v: &Value) -> Option<i128> {
    v.as_str().map(|x| x.parse().unwrap())
}
fn as_int(d: &Value) -> Option<i128> {
    d.as_i64().map(i128::from).or(d.as_u64().map(i128::from))
}

fn model(m: &Value, d: &Value) -> M {
    let t = &m["t"];
    match m["k"].as_str().unwrap() {
        "any" => M::Ok,
        "null" => no(!d.is_null()),
        "bool" => no(!d.is_boolean()),
        "str" => no(!d.is_string()),
        "char" => no(!d.as_str().is_some_and(|x| x.chars().count() == 1)),
        "enum" => no(!m["vs"].as_array().unwrap().contains(d)),
        "num" => no(!d.is_number()),
        "int" => match as_int(d) {
            Some(n) => no(bound(&m["min"]).is_some_and(|lo| n < lo) || bound(&m["max"]).is_some_and(|hi| n > hi) || (m["nonzero"] == true && n == 0)),
            None => no(!d.is_number() || d.as_f64().is_some_and(|f| f.fract() != 0.0)),
        },
        "opt" => {
            if d.is_null() {
                M::Ok
            } else {
                model(t, d)
            }
        }
        "seq" | "set" => match d {
            Value::Array(a) => {
                if m["max"].as_u64().is_some_and(|n| a.len() > n as usize) {
                    return M::Reject;
                }
                all(a.iter().map(|x| model(t, x)))
            }
            _ => M::Reject,
        },
        "arr" => match d {
            Value::Array(a) if a.len() as u64 == m["n"].as_u64().unwrap() => all(a.iter().map(|x| model(t, x))),
            _ => M::Reject,
        },
        "tup" => {
            let ts = m["ts"].as_array().unwrap();
            match d {
                Value::Array(a) if a.len() == ts.len() => all(a.iter().zip(ts).map(|(x, t)| model(t, x))),
                _ => M::Reject,
            }
        }
        "map" => match d {
            Value::Object(o) => all(o.iter().map(|(k, x)| {
                let digits = |k: &str| !k.is_empty() && k.bytes().all(|b| b.is_ascii_digit());
                let bad = match &m["key"] {
                    Value::Array(a) => !a.contains(&json!(k)),
                    Value::String(s) if s == "uint" => !digits(k),
                    Value::String(s) if s == "int" => !digits(k.strip_prefix('-').unwrap_or(k)),
                    _ => false,
                };
                if bad {
                    M::Reject
                } else {
                    model(&m["v"], x)
                }
            })),
            _ => M::Reject,
        },
        "obj" => match d {
            Value::Object(o) => all(m["fs"].as_object().unwrap().iter().map(|(k, t)| o.get(k).map_or(M::Reject, |x| model(t, x)))),
            Value::Array(_) => M::Schema,
            _ => M::Reject,
        },
        "alt" => {
            let rs: Vec<M> = m["ts"].as_array().unwrap().iter().map(|t| model(t, d)).collect();
            if rs.contains(&M::Ok) {
                M::Ok
            } else if rs.contains(&M::Schema) {
                M::Schema
            } else {
                M::Reject
            }
        }
        k => panic!("model {k}"),
    }
}

/// Does the document hold equal items where the type is a set?
fn dup(m: &Value, d: &Value) -> bool {
    let t = &m["t"];
    match (m["k"].as_str().unwrap(), d) {
        ("set", Value::Array(a)) => (0..a.len()).any(|i| a[..i].contains(&a[i])) || a.iter().any(|x| dup(t, x)),
        ("seq" | "arr", Value::Array(a)) => a.iter().any(|x| dup(t, x)),
        ("opt", d) => dup(t, d),
        ("tup", Value::Array(a)) => a.iter().zip(m["ts"].as_array().unwrap()).any(|(x, t)| dup(t, x)),
        ("map", Value::Object(o)) => o.values().any(|x| dup(&m["v"], x)),
        ("obj", Value::Object(o)) => m["fs"].as_object().unwrap().iter().any(|(k, t)| o.get(k).is_some_and(|x| dup(t, x))),
        ("alt", d) => m["ts"].as_array().unwrap().iter().any(|t| dup(t, d)),
        _ => false,
    }
}

/// Does a string have a format? None: the format is not known here.
fn format_ok(f: &str, x: &str) -> Option<bool> {
    fn re(p: &str, x: &str) -> bool {
        fancy_regex::Regex::new(p).unwrap().is_match(x).unwrap()
    }
    const DATE: &str = r"\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])";
    const TIME: &str = r"([01]\d|2[0-3]):[0-5]\d:([0-5]\d|60)(\.\d+)?";
    const OFF: &str = r"([zZ]|[+-]([01]\d|2[0-3]):[0-5]\d)";
    Some(match f {
        "ipv4" => x.parse::<std::net::Ipv4Addr>().is_ok(),
        "ipv6" => x.parse::<std::net::Ipv6Addr>().is_ok(),
        "ip" => x.parse::<std::net::IpAddr>().is_ok(),
        "uuid" => re("^[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}$", x),
        "date" => re(&format!("^{DATE}$"), x),
        "partial-time" => re(&format!("^{TIME}$"), x),
        "time" => re(&format!("^{TIME}{OFF}$"), x),
        "partial-date-time" => re(&format!("^{DATE}T{TIME}$"), x),
        "date-time" => re(&format!("^{DATE}[Tt ]{TIME}{OFF}$"), x),
        "zoned-date-time" => re(&format!(r"^{DATE}T{TIME}{OFF}\[.+\]$"), x),
        "duration" => re(r"^-?P(?=.)(\d+Y)?(\d+M)?(\d+W)?(\d+D)?(T(?=.)(\d+H)?(\d+M)?(\d+(\.\d+)?S)?)?$", x),
        "uri" => re(r"^[A-Za-z][A-Za-z0-9+.-]*:[\x21-\x7e]*$", x),
        _ => return None,
    })
}
fn int_format(f: &str) -> Option<(i128, i128)> {
    Some(match f {
        "int8" => (i8::MIN as i128, i8::MAX as i128),
        "int16" => (i16::MIN as i128, i16::MAX as i128),
        "int32" => (i32::MIN as i128, i32::MAX as i128),
        "int64" | "int" => (i64::MIN as i128, i64::MAX as i128),
        "uint8" => (0, u8::MAX as i128),
        "uint16" => (0, u16::MAX as i128),
        "uint32" => (0, u32::MAX as i128),
        "uint64" | "uint" => (0, u64::MAX as i128),
        "int128" => (i128::MIN, i128::MAX),
        "uint128" => (0, i128::MAX),
        _ => return None,
    })
}

pub fn check(ctx: &mut Ctx, s: &mut Src, st: &mut Stats) -> CaseResult {
    let i = s.below(ctx.unit.roots.len());
    let r = ctx.unit.roots[i].clone();
    let get = |ctx: &mut Ctx, ser: bool| {
        ctx.cached(&format!("{i} {ser}"), || {
            let st = SchemaSettings::draft2020_12();
            let st = if ser { st.for_serialize() } else { st.for_deserialize() };
            (r.schema)(&st).to_value()
        })
    };
    // (formats are annotations; those of bare values are checked below)
    let bare = |ctx: &mut Ctx, ser: bool| {
        let mut v = (*get(ctx, ser)).clone();
        ctx.cached(&format!("bare {i} {ser}"), || {
            strip_formats(&mut v);
            v
        })
    };
    let fmt = get(ctx, true);
    let fmt = &fmt["format"];
    let (ser, de) = (bare(ctx, true), bare(ctx, false));
    let (mser, mde) = (ctx.meta["types"][i]["ser"].clone(), ctx.meta["types"][i]["de"].clone());
    let text = match (r.gen.unwrap())(s) {
        Ok(t) => t,
        Err(_) => {
            st.class("serializing fails");
            return Ok(());
        }
    };
    let Some(doc) = lab::parse_unique(&text) else {
        st.class("duplicate keys");
        return Ok(());
    };
    let case = |sch: &Value, d: &Value| json!({"type": r.name, "schema": sch, "document": d});
    let valid = |sch: &Value, d: &Value, want: bool| {
        let v = Eval::new(sch, Mode::Modern).valid(d);
        v == want || !eval::confirmed(sch, d, v)
    };
    if !dup(&mser, &doc) {
        st.class("serialized value");
        if !valid(&ser, &doc, true) {
            // BigDecimal writes very small and large numbers in scientific notation
            let sig = if r.name.contains("BigDecimal") && valid(&ser, &exponents(doc.clone()), true) { "bigdecimal-exponent" } else { "ser-rejects" };
            return fail(sig, format!("{}: the serialized value {doc} does not validate against the serialize schema", r.name), case(&ser, &doc));
        }
    }
    let acc = |t: &str| r.accepts.map(|a| a(t).is_ok());
    // formats of bare values
    if let (Some(f), Some(x)) = (fmt.as_str(), doc.as_str()) {
        if format_ok(f, x) == Some(false) {
            return fail("format", format!("{}: the serialized value {doc} does not have the format {f:?} of its schema", r.name), case(&ser, &doc));
        }
    }
    if let (Some((lo, hi)), Some(a)) = (fmt.as_str().and_then(int_format), r.accepts) {
        if ser["type"] == "integer" {
            for (n, want) in [(lo, true), (hi, true), (lo.saturating_sub(1), lo == i128::MIN), (hi.saturating_add(1), hi == i128::MAX)] {
                if n != 0 && a(&n.to_string()).is_ok() != want {
                    return fail("int-format", format!("{}: format {:?} does not agree with serde on {n}", r.name, fmt), json!({"type": r.name, "schema": *ser, "number": n.to_string()}));
                }
            }
        }
    }
    for k in 0..4 {
        let mut d = doc.clone();
        if k > 0 {
            if s.chance(1, 4) {
                d = jsongen::value(s, 2, &["secs".into(), "nanos".into(), "Ok".into(), "start".into(), "1".into(), "-1".into()]);
            } else {
                mutate(s, &mut d);
            }
        }
        let t = d.to_string();
        let a = acc(&t);
        let (ms, md) = (model(&mser, &d), model(&mde, &d));
        if d.is_array() || d.is_object() || md != M::Ok {
            st.nontrivial(&(r.name, &t), || json!({"type": r.name, "document": d, "serde": a, "wrong": md != M::Ok, "schema": *de}));
        }
        // (the text forms of decimals that are read but never written are not described)
        let odd = k > 0 && r.name.contains("Decimal");
        if a == Some(true) && md != M::Schema && !dup(&mde, &d) && !odd {
            st.class("serde accepts");
            if !valid(&de, &d, true) {
                return fail("de-rejects", format!("{}: serde deserializes {d} but the deserialize schema rejects it", r.name), case(&de, &d));
            }
        }
        if md != M::Ok && a != Some(true) {
            st.class("wrong document");
            if !valid(&de, &d, false) {
                return fail("de-accepts", format!("{}: the deserialize schema accepts {d}, which is of a wrong JSON kind, length or range and which serde rejects", r.name), case(&de, &d));
            }
        }
        if md != M::Ok && a == Some(true) && md != M::Schema {
            st.class("the model disagrees with serde");
        }
        if ms != M::Ok && (a != Some(true) || mser != mde) && !valid(&ser, &d, false) {
            return fail("ser-accepts", format!("{}: the serialize schema accepts {d}, which is of a wrong JSON kind, length or range", r.name), case(&ser, &d));
        }
    }
    Ok(())
}
/// The document with numbers in scientific notation written plainly.
fn exponents(mut d: Value) -> Value {
    match &mut d {
        Value::String(x) if x.contains(['e', 'E']) && x.parse::<f64>().is_ok() => d = json!(hash64(x).to_string()),
        Value::Array(a) => a.iter_mut().for_each(|x| *x = exponents(x.take())),
        Value::Object(o) => o.values_mut().for_each(|x| *x = exponents(x.take())),
        _ => {}
    }
    d
}
fn strip_formats(v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.get("format").is_some_and(Value::is_string) {
                o.remove("format");
            }
            o.values_mut().for_each(strip_formats);
        }
        Value::Array(a) => a.iter_mut().for_each(strip_formats),
        _ => {}
    }
}

fn mutate(s: &mut Src, d: &mut Value) {
    let locs = jsongen::all_locations(d);
    let l = s.pick(&locs).clone();
    let t = jsongen::at_mut(d, &l);
    match (s.below(4), &mut *t) {
        (0, Value::Array(a)) if !a.is_empty() => {
            a.pop();
        }
        (1, Value::Array(a)) => {
            let x = a.last().cloned().unwrap_or(json!(1));
            a.push(x);
        }
        (0, Value::Object(o)) if !o.is_empty() => {
            let ks: Vec<String> = o.keys().cloned().collect();
            o.remove(s.pick(&ks));
        }
        (1, Value::Object(o)) if !o.is_empty() => {
            let ks: Vec<String> = o.keys().cloned().collect();
            let v = o.remove(s.pick(&ks)).unwrap();
            o.insert(s.pick(&["zz", "1.5", "-7", "12", ""]).to_string(), v);
        }
        (2, Value::Object(o)) => {
            o.insert("zzExtra".into(), json!(1));
        }
        (_, t) => {
            const NUMS: [i64; 22] = [0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -128, -129, -32768, -32769, 2147483648, 4294967295, 4294967296, 999999999, 1000000000, i64::MAX, i64::MIN];
            *t = match s.below(9) {
                0 => Value::Null,
                1 => json!(true),
                2..=4 => json!(*s.pick(&NUMS)),
                5 => json!(*s.pick(&[1.5, -0.5, 1e300])),
                6 => json!(*s.pick(&["", "x", "12", "ab"])),
                7 => s.pick(&[json!([]), json!([1]), json!([null]), json!([1, 2])]).clone(),
                _ => s.pick(&[json!({}), json!({"a": 1}), json!({"1": true})]).clone(),
            };
        }
    }
}
