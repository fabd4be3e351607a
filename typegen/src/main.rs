//! Decodes responses and encodes inputs with generated types: NDJSON in, NDJSON out.
//! The types come from the source checks/typegen.py writes (TYPEGEN_SRC).
#![allow(dead_code, unused, nonstandard_style, elided_lifetimes_in_paths)]
use std::io::{BufRead, Write};

mod programs {
    include!(env!("TYPEGEN_SRC"));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let c: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let s = |k: &str| c[k].as_str().unwrap_or("").to_string();
        let r = std::panic::catch_unwind(|| {
            if s("op") == "decode" {
                programs::decode(&s("m"), &s("root"), &s("text"))
            } else {
                programs::encode(&s("m"), &s("type"), &c["value"])
            }
        });
        let mut a = match r {
            Ok(Ok(x)) => serde_json::json!({ "ok": x }),
            Ok(Err(x)) => serde_json::json!({ "err": x }),
            Err(e) => serde_json::json!({"panic": e.downcast_ref::<String>().cloned()
                .or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()}),
        };
        a["id"] = c["id"].clone();
        let mut o = out.lock();
        writeln!(o, "{}", a).unwrap();
        o.flush().unwrap();
    }
}
