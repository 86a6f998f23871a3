// the line protocol, shared by all binaries
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn sched(kv: &HashMap<String, String>) {
    use rayon_core::sched::{set, Mode};
    let nt = kv.get("nt").map(|x| x.parse().unwrap()).unwrap_or(4);
    let m = match kv.get("sched").map(|s| s.as_str()).unwrap_or("seq") {
        "seq" => Mode::Seq,
        "rev" => Mode::Rev,
        s => Mode::Inter(s[2..].split('+').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
    };
    set(nt, m);
}

fn head(id: &str, r: Result<(), Box<dyn std::any::Any + Send>>, uns: Option<String>) -> String {
    let (status, msg) = match (&r, uns) {
        (_, Some(u)) => ("unsupported", u),
        (Ok(()), _) => ("ok", String::new()),
        (Err(e), _) => {
            let m = crate::panic_text(e);
            (if m.contains("HARNESS:") { "harness" } else { "panic" }, m)
        }
    };
    format!("{{\"id\":{},\"status\":{},\"msg\":{}", esc(id), esc(status), esc(&msg))
}
fn metas(o: &mut String, m: &[(String, String)]) {
    o.push_str(",\"meta\":{");
    for (i, (k, v)) in m.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), esc(v));
    }
    let (st, j) = rayon_core::sched::stats();
    let _ = write!(o, "}},\"sched\":[{},{}]", st, j);
}

pub fn main(run: fn(&str, HashMap<String, String>, Vec<f64>, bool) -> String) {
    std::panic::set_hook(Box::new(|i| {
        // a panic that does not unwind ends the process: leave its text behind
        let m = i.to_string();
        if m.contains("unsafe precondition") {
            eprintln!("{}\n{}", m, std::backtrace::Backtrace::force_capture());
        }
    }));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let kv: HashMap<String, String> = line
            .split_whitespace()
            .filter_map(|t| t.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
            .collect();
        let id = kv.get("id").cloned().unwrap_or_default();
        {
            let mut w = out.lock();
            let _ = writeln!(w, "BEGIN {}", id);
            let _ = w.flush();
        }
        let vals: Option<Vec<f64>> = kv.get("vals").map(|v| {
            v.split(',').filter(|x| !x.is_empty()).map(|x| f64::from_bits(x.parse().unwrap())).collect()
        });
        let given = vals.is_some();
        let s = run(&id, kv, vals.unwrap_or_default(), given);
        let mut w = out.lock();
        let _ = writeln!(w, "{}", s);
        let _ = w.flush();
    }
}
