use vh::checks::*;
use vh::run::Check;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (prop, replay) = match args.first().map(String::as_str) {
        Some("run") => (args[1].clone(), None),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            (v["property"].as_str().unwrap().to_string(), Some(v))
        }
        _ => {
            eprintln!("usage: vh run <property> | vh replay <file>");
            std::process::exit(2);
        }
    };
    type Mk = fn() -> Check;
    type Run = fn(&mut Check);
    let (mk, run): (Mk, Run) = match prop.as_str() {
        "C04" => (graph::c04, graph::run_c04),
        "C05" => (graph::c05, graph::run_c05),
        "C06" => (graph::c06, graph::run_c06),
        "C07" => (graph::c07, graph::run_c07),
        "C08" => (graph::c08, graph::run_c08),
        "C09" => (graph::c09, graph::run_c09),
        "C10" => (transforms::c10, transforms::run_c10),
        "C12" => (value::c12, value::run_c12),
        "C13" => (schemaobj::c13, schemaobj::run_c13),
        "C11" => (transforms::c11, transforms::run_c11),
        "C01" => (derive::c01, derive::run_c01),
        "C02" => (derive::c02, derive::run_c02),
        "C03" => (derive::c03, derive::run_c03),
        "C14" => (wrappers::c14, wrappers::run_c14),
        "C15" => (spelling::c15, spelling::run_c15),
        "C16" => (validation::c16, validation::run_c16),
        "C17" => (metadata::c17, metadata::run_c17),
        "C21" => (generics::c21, generics::run_c21),
        "C20" => (features::c20, features::run_c20),
        "C18" => (rejection::c18, rejection::run_c18),
        "C19" => (builtin::c19, builtin::run_c19),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let mut ck = mk();
    if let Some(v) = replay {
        let choices = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
        ck.set_replay_value(v.clone());
        ck.set_replay(v["campaign"].as_str().unwrap(), choices);
    }
    if let Err(e) = vh::run::guard(|| run(&mut ck)) {
        eprintln!("check error: {e}");
        std::process::exit(2);
    }
    std::process::exit(ck.finish());
}
