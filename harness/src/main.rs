mod algebra;
mod big;
mod bounds;
mod conv;
mod elem;
mod index;
mod iter;
mod record;
mod report;
mod scale;
mod steps;
mod traits;
mod val;
use std::collections::HashMap;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("subcommand");
    let mut opt: HashMap<String, String> = HashMap::new();
    while let Some(k) = args.next() {
        opt.insert(k.trim_start_matches("--").to_string(), args.next().expect("option value"));
    }
    let s = |k: &str| opt.get(k).cloned().unwrap_or_default();
    let num = |k: &str, d: u64| opt.get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let thorough = s("tier") == "thorough";
    let out = s("out");
    report::install(out.clone(), num("hang", 30));
    match cmd.as_str() {
        "algebra" => algebra::main(&s("rows"), &s("prop"), num("n", 3) as usize, num("seed", 1), thorough),
        "iterate" => algebra::iterate(&s("rows"), &s("prop"), num("n", 3) as usize, num("seed", 1)),
        "laws" => algebra::laws(&s("rows"), num("n", 2) as usize, num("seed", 1), num("samples", 100_000) as usize),
        "record" => {
            record::main(&s("trace"), num("n", 12) as usize, num("chunks", 100) as usize,
                num("len", 40) as usize, &s("focus"), num("seed", 1), num("tight", 0) == 1);
        }
        "iter" => iter::main(&s("rows"), &s("prop"), num("n", 5) as usize, num("horizon", 0) as usize, thorough),
        "steps" => big::steps(&s("trace"), num("chunks", 10) as usize, num("len", 50) as usize, num("seed", 1), thorough),
        "bigiter" => big::iters(&s("trace"), num("chunks", 30) as usize, num("len", 40) as usize, num("seed", 1),
            num("lower", 0) == 1),
        "conv" => conv::main(&s("rows"), num("m", 4) as i64, num("below", 0) as i64, num("above", 0) as i64, thorough),
        "index" => index::main(&s("rows"), num("maxlen", 5) as usize, thorough),
        "conv-record" => conv::record(&s("trace"), num("chunks", 10) as usize, num("len", 50) as usize, num("seed", 1)),
        "index-record" => index::record(&s("trace"), num("chunks", 10) as usize, num("len", 50) as usize, num("seed", 1)),
        "bounds" => bounds::main(&s("rows"), &s("order"), num("n", 6) as usize),
        "bounds-reload" => bounds::reload(&s("rows"), num("n", 6) as usize),
        "traits" => traits::main(&s("rows")),
        "scale" => scale::main(&s("rows"), &s("prop"), num("n", 500) as i64, num("stack", 2 << 20) as usize,
            num("seed", 1), num("some", 1) as usize, &s("only")),
        c => panic!("unknown subcommand {c}"),
    }
    report::finish(&out, serde_json::json!({}));
}
