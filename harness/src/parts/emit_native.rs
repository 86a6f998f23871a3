include!("emit_base.rs");

pub fn run_native(id: &str, kv: HashMap<String, String>, vals: Vec<f64>, _given: bool) -> String {
    sched(&kv);
    let mut cx = crate::m::Cx::new(kv, vals);
    let r = catch_unwind(AssertUnwindSafe(|| crate::m::run(&mut cx)));
    let mut o = head(id, r, None);
    metas(&mut o, &cx.meta);
    o.push_str(",\"values\":{");
    for (i, (k, v)) in cx.groups.iter().enumerate() {
        let _ = write!(o, "{}{}:[", if i > 0 { "," } else { "" }, esc(k));
        for (j, x) in v.iter().enumerate() {
            let _ = write!(o, "{}{}", if j > 0 { "," } else { "" }, (*x as f64).to_bits());
        }
        o.push(']');
    }
    o.push_str("}}");
    o
}
