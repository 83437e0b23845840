//! Generated-type checks: what is generated, how much of it, and the evidence rules.
use crate::labrun::{self, Lab, UnitSrc};
use crate::run::*;
use crate::src::Src;
use crate::tyspec::{self, Body, Shape, Tag, TyCfg};
use serde_json::json;

fn serde_unit(name: &str, s: &mut Src) -> UnitSrc {
    serde_unit_with(name, s, &TyCfg::default())
}
fn strict_unit(name: &str, s: &mut Src) -> UnitSrc {
    serde_unit_with(name, s, &TyCfg { loose_keys: false, ..TyCfg::default() })
}
fn serde_unit_with(name: &str, s: &mut Src, cfg: &TyCfg) -> UnitSrc {
    let m = tyspec::module(s, cfg);
    let asym = m.asymmetric();
    let all = m.defs.iter().flat_map(tyspec::def_fields).collect::<Vec<_>>();
    let roots = m.roots.iter().map(|t| {
        let is_struct = match t {
            tyspec::Ty::User(i, _) => {
                let d = &m.defs[*i];
                matches!(d.body, Body::Struct(Shape::Named, _)) && !d.transparent && d.into.is_none()
            }
            _ => false,
        };
        let (loose, loose_deny, flatext, adjdeny) = m.flags(t);
        json!({"struct": is_struct, "loose": loose, "loose_deny": loose_deny, "flatext": flatext, "adjdeny": adjdeny})
    });
    let meta = json!({
        "roots": roots.collect::<Vec<_>>(),
        "recursion": m.defs.iter().any(|d| d.recursive),
        "enumkeys": m.defs.iter().any(|d| tyspec::def_types(d).any(|t| tyspec::user_has(t, &mut |t| matches!(t, tyspec::Ty::Map(k, _) if matches!(**k, tyspec::Ty::User(..)))))),
        "as_str": all.iter().any(|f| f.with.is_some()),
        "optflat": all.iter().any(|f| f.flatten && m.optish(&f.ty)),
        "variantmap": m.defs.iter().any(|d| matches!(&d.body, Body::Enum(_, vs) if vs.iter().any(|v| v.fields.iter().any(|f| (f.flatten || f.ident == "0") && tyspec::user_has(&f.ty, &mut |t| !matches!(t, tyspec::Ty::P(_))))))),
        "untagged": m.defs.iter().any(|d| matches!(&d.body, Body::Enum(t, vs) if *t == Tag::Untagged || vs.iter().any(|v| v.untagged))),
    });
    let path = |i: usize, mirror: bool| format!("{name}::{}Root{i}", if mirror { "mirror::" } else { "" });
    UnitSrc {
        source: m.source(name),
        roots: (0..m.roots.len()).map(|i| format!("vh::lab::Root::full::<{}, {}>(\"Root{i}\")", path(i, false), path(i, asym))).collect(),
        meta,
    }
}

const LAB: Lab<'static> = Lab { name: "", units: (1200, 4000), unit_len: 280, cases: (300, 3000), case_len: 160, report_compile_errors: false, generate: &serde_unit };

pub fn c01() -> Check {
    Check::new("C01", "a generated value of a generated type that serializes to an object or array (distinct by type and document)")
}
pub fn run_c01(ck: &mut Check) {
    ck.assume("serde's derive and serde_json define how values serialize; values whose JSON has duplicate keys (flattened maps that collide with fields) are skipped");
    labrun::campaign(ck, &Lab { name: "c01", ..LAB });
}
pub fn c02() -> Check {
    Check::new("C02", "an object or array that serde deserializes into a generated type (distinct by type and document)")
}
pub fn run_c02(ck: &mut Check) {
    ck.assume("serde_json::from_str decides what deserializes");
    labrun::campaign(ck, &Lab { name: "c02", generate: &strict_unit, ..LAB });
}
pub fn c03() -> Check {
    Check::new("C03", "a document with one planted fault that serde rejects while accepting it without the fault (distinct by type and document)")
}
pub fn run_c03(ck: &mut Check) {
    ck.assume("serde_json::from_str decides what deserializes");
    labrun::campaign(ck, &Lab { name: "c03", generate: &strict_unit, ..LAB });
}

/// Derived types for the properties otherwise checked on hand-written type graphs.
pub fn derived(ck: &mut Check, name: &str, cases: (usize, usize)) {
    labrun::campaign(ck, &Lab { name, units: (300, 900), cases, ..LAB });
}
