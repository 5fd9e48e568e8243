use rv::prog::*;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { println!("{}", r.args()); }
    fn flush(&self) {}
}
static LG: L = L;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let case: Case = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    println!("{}", show(&case));
    if a.len() > 3 { log::set_logger(&LG).unwrap(); log::set_max_level(log::LevelFilter::Trace); }
    let algorithm = if a[1] == "ion" { regalloc2::Algorithm::Ion } else { regalloc2::Algorithm::Fastalloc };
    let opts = regalloc2::RegallocOptions { verbose_log: a.len() > 3, validate_ssa: false, algorithm };
    let r = regalloc2::run(&case.prog.flat(), &case.env.to_machine(), &opts);
    println!("{:?}", r);
    if let Ok(out) = r {
        let res = rv::oracle::Res::of(&case, &out).unwrap();
        for v in rv::oracle::judge(&case, &res, rv::oracle::Opts { debug: true, strict_debug: a[1] == "ion" }) { println!("{:?} {}", v.kind, v.msg); }
    }
}
