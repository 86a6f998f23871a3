use crate::sym::{self, Op, Rel, Sym};
include!("emit_base.rs");

struct Consts {
    map: HashMap<u64, i64>,
    list: Vec<u64>,
}
impl Consts {
    fn r(&mut self, (tag, bits): (u64, u64)) -> i64 {
        if tag != 0 {
            return bits as i64;
        }
        let n = self.list.len() as i64;
        let list = &mut self.list;
        *self.map.entry(bits).or_insert_with(|| {
            list.push(bits);
            -(n + 1)
        })
    }
}

pub fn run_sym(id: &str, kv: HashMap<String, String>, vals: Vec<f64>, given: bool) -> String {
    let cone = kv.get("cone").map_or(true, |c| c == "1");
    let dec: Vec<bool> = kv.get("dec").map_or(vec![], |d| d.chars().map(|c| c == '1').collect());
    sym::set_single(kv.get("single").map_or(false, |s| s == "1"));
    sym::set_concrete(if given { Some(vals) } else { None });
    sym::reset(dec);
    sched(&kv);
    let mut cx = crate::m::Cx::new(kv, vec![]);
    let r = catch_unwind(AssertUnwindSafe(|| crate::m::run(&mut cx)));
    let ar = sym::take();
    let mut c = Consts { map: HashMap::new(), list: vec![] };
    let mut o = head(id, r, ar.unsupported.clone());
    metas(&mut o, &cx.meta);
    let _ = write!(o, ",\"ninputs\":{},\"nnodes\":{}", ar.ninputs, ar.nodes.len());
    let mut need = vec![false; ar.nodes.len()];
    let mark = |s: &Sym, need: &mut Vec<bool>| {
        let (t, b) = s.raw();
        if t != 0 {
            need[b as usize] = true
        }
    };
    o.push_str(",\"groups\":{");
    for (i, (k, v)) in cx.groups.iter().enumerate() {
        let _ = write!(o, "{}{}:[", if i > 0 { "," } else { "" }, esc(k));
        for (j, x) in v.iter().enumerate() {
            mark(x, &mut need);
            let _ = write!(o, "{}{}", if j > 0 { "," } else { "" }, c.r(x.raw()));
        }
        o.push(']');
    }
    o.push_str("},\"path\":[");
    for (i, (rel, a, b, v)) in ar.path.iter().enumerate() {
        mark(a, &mut need);
        mark(b, &mut need);
        let n = match rel {
            Rel::Lt => "<",
            Rel::Le => "<=",
            Rel::Eq => "=",
        };
        let _ = write!(o, "{}[\"{}\",{},{},{}]", if i > 0 { "," } else { "" }, n, c.r(a.raw()), c.r(b.raw()), *v as u8);
    }
    o.push_str("],\"nodes\":[");
    if cone {
        for i in (0..ar.nodes.len()).rev() {
            if need[i] {
                let n = ar.nodes[i];
                if n.op != Op::Input {
                    for (t, b) in [n.a, n.b] {
                        if t != 0 {
                            need[b as usize] = true
                        }
                    }
                }
            }
        }
        let mut first = true;
        for (i, n) in ar.nodes.iter().enumerate() {
            if need[i] {
                let (a, b) = if n.op == Op::Input { (n.a.1 as i64, 0) } else { (c.r(n.a), c.r(n.b)) };
                let _ = write!(o, "{}[{},{},{},{}]", if first { "" } else { "," }, i, n.op as u8, a, b);
                first = false;
            }
        }
    }
    o.push_str("],\"consts\":[");
    for (i, b) in c.list.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, b);
    }
    o.push_str("]}");
    o
}

