//! Equality of two schema documents up to the names and places of their definitions.
use crate::eval::resolve;
use serde_json::{Map, Value};
use std::collections::HashSet;

/// Compares two documents, following references on both sides (so recursion is compared
/// coinductively). Root `$schema`, definition containers and, if asked, the root's `title` are
/// left out. Gives the place of the first difference.
pub fn same(a: &Value, b: &Value, ignore_root_title: bool) -> Result<(), String> {
    let mut seen = HashSet::new();
    let strip = |v: &Value| {
        let mut v = v.clone();
        if let Value::Object(o) = &mut v {
            for k in ["$schema", "$defs", "definitions", "components"] {
                o.remove(k);
            }
            if ignore_root_title {
                o.remove("title");
            }
        }
        v
    };
    let (ra, rb) = (strip(a), strip(b));
    let mut c = Cmp { a, b, seen: &mut seen };
    c.schema(&ra, &rb, "#")
}

struct Cmp<'a> {
    a: &'a Value,
    b: &'a Value,
    seen: &'a mut HashSet<(usize, usize)>,
}
const DATA: [&str; 5] = ["default", "examples", "example", "enum", "const"];

impl<'a> Cmp<'a> {
    fn root_ref(v: &Value) -> bool {
        v.get("$ref").and_then(Value::as_str) == Some("#")
    }
    fn schema(&mut self, x: &Value, y: &Value, at: &str) -> Result<(), String> {
        let (rx, ry) = (x.get("$ref").and_then(Value::as_str), y.get("$ref").and_then(Value::as_str));
        match (rx, ry) {
            (Some(p), Some(q)) => {
                self.keywords(x, y, at)?;
                if Self::root_ref(x) && Self::root_ref(y) {
                    return Ok(());
                }
                let (Some(tx), Some(ty)) = (resolve(self.a, p), resolve(self.b, q)) else { return Err(format!("{at}: unresolved {p} or {q}")) };
                self.targets(tx, ty, &format!("{at} -> {p}"))
            }
            (Some(p), None) if x.as_object().unwrap().len() == 1 => {
                let Some(tx) = resolve(self.a, p) else { return Err(format!("{at}: unresolved {p}")) };
                self.targets(tx, y, &format!("{at} -> {p}"))
            }
            (None, Some(q)) if y.as_object().unwrap().len() == 1 => {
                let Some(ty) = resolve(self.b, q) else { return Err(format!("{at}: unresolved {q}")) };
                self.targets(x, ty, &format!("{at} -> {q}"))
            }
            _ => self.keywords(x, y, at),
        }
    }
    fn targets(&mut self, x: &Value, y: &Value, at: &str) -> Result<(), String> {
        if !self.seen.insert((x as *const _ as usize, y as *const _ as usize)) {
            return Ok(());
        }
        // (a reference to the root comes with the root's own keywords)
        let strip = |v: &Value, root: &Value| -> Option<Value> {
            if std::ptr::eq(v, root) {
                let mut v = v.clone();
                let o = v.as_object_mut()?;
                for k in ["$schema", "$defs", "definitions", "components", "title"] {
                    o.remove(k);
                }
                Some(v)
            } else {
                None
            }
        };
        let (sx, sy) = (strip(x, self.a), strip(y, self.b));
        if sx.is_some() != sy.is_some() {
            // root on one side only: its title may be the definition's own, too
            let no_title = |v: &Value| {
                let mut v = v.clone();
                if let Value::Object(o) = &mut v {
                    o.remove("title");
                }
                v
            };
            let (px, py) = (sx.unwrap_or_else(|| no_title(x)), sy.unwrap_or_else(|| no_title(y)));
            return self.schema(&px, &py, at);
        }
        self.schema(sx.as_ref().unwrap_or(x), sy.as_ref().unwrap_or(y), at)
    }
    fn keywords(&mut self, x: &Value, y: &Value, at: &str) -> Result<(), String> {
        let (Value::Object(p), Value::Object(q)) = (x, y) else {
            return if x == y { Ok(()) } else { Err(format!("{at}: {x} / {y}")) };
        };
        let skip = |k: &str| k == "$ref";
        for (k, v) in p {
            if skip(k) {
                continue;
            }
            let Some(w) = q.get(k) else { return Err(format!("{at}: {k:?} is only on one side: {v}")) };
            if DATA.contains(&k.as_str()) {
                if v != w {
                    return Err(format!("{at}/{k}: {v} / {w}"));
                }
                continue;
            }
            match k.as_str() {
                "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" => self.map(v, w, &format!("{at}/{k}"))?,
                "required" => {
                    let set = |v: &Value| v.as_array().map(|a| a.iter().map(Value::to_string).collect::<HashSet<_>>());
                    if set(v) != set(w) {
                        return Err(format!("{at}/required: {v} / {w}"));
                    }
                }
                _ => self.value(v, w, &format!("{at}/{k}"))?,
            }
        }
        match q.keys().find(|k| !p.contains_key(*k)) {
            Some(k) => Err(format!("{at}: {k:?} is only on the other side: {}", q[k])),
            None => Ok(()),
        }
    }
    fn map(&mut self, v: &Value, w: &Value, at: &str) -> Result<(), String> {
        let e = Map::new();
        let (p, q) = (v.as_object().unwrap_or(&e), w.as_object().unwrap_or(&e));
        for (k, x) in p {
            let Some(y) = q.get(k) else { return Err(format!("{at}: {k:?} is only on one side")) };
            self.schema(x, y, &format!("{at}/{k}"))?;
        }
        match q.keys().find(|k| !p.contains_key(*k)) {
            Some(k) => Err(format!("{at}: {k:?} is only on the other side")),
            None => Ok(()),
        }
    }
    fn value(&mut self, v: &Value, w: &Value, at: &str) -> Result<(), String> {
        match (v, w) {
            (Value::Object(_), Value::Object(_)) => self.schema(v, w, at),
            (Value::Array(p), Value::Array(q)) if p.len() == q.len() => {
                for (i, (x, y)) in p.iter().zip(q).enumerate() {
                    self.value(x, y, &format!("{at}/{i}"))?;
                }
                Ok(())
            }
            _ if v == w => Ok(()),
            _ => Err(format!("{at}: {v} / {w}")),
        }
    }
}
