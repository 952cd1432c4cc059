mod cesr;
mod fw;
mod oracle;
mod ev;
#[cfg(keride_verif)]
mod msg;
mod typed;
use fw::*;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn kinds() -> Vec<Kind> {
    let mut k = cesr::kinds();
    k.extend(typed::kinds());
    k.extend(ev::kinds());
    #[cfg(keride_verif)]
    k.extend(msg::kinds());
    k
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let kinds = kinds();
    match a.get(1).map(|x| x.as_str()) {
        Some("search") => {
            // search PROP SEED SECS [TRACE] [KNOWN,..]
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let trace = a.get(5).filter(|x| !x.is_empty()).cloned();
            let known: Vec<String> = a.get(6).map_or(vec![], |x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.to_string()).collect());
            let threads = std::env::var("VP_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
            let r = search(&a[2], &kinds, seed, secs, threads, &known, trace);
            let fails: Vec<serde_json::Value> = r
                .failures
                .iter()
                .map(|(c, m)| serde_json::json!({"case": serde_json::from_str::<serde_json::Value>(&c.json()).unwrap(), "message": m}))
                .collect();
            println!(
                "{}",
                serde_json::json!({"evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
                "per_kind": r.per_kind, "samples": r.samples, "failures": fails})
            );
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let v = v.get("case").unwrap_or(&v);
            let k = kinds.iter().find(|k| k.name == v["kind"].as_str().unwrap()).expect("kind");
            let c = Case {
                kind: k.name,
                b: v["b"].as_array().unwrap().iter().map(|x| unhex(x.as_str().unwrap())).collect(),
                n: v["n"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect(),
            };
            match run_case(k.check, &c) {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("FAILS {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("kinds") => {
            for k in &kinds {
                println!("{} {}", k.name, k.props.join(","));
            }
        }
        _ => eprintln!("search PROP SEED SECS [TRACE] [KNOWN] | replay FILE | kinds"),
    }
}
