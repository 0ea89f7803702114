#![feature(alloc_error_hook)]
mod checks;
mod evmgen;
mod fw;
mod refevm;
mod spec;

fn check(id: &str) -> Option<fw::Check> {
    Some(match id {
        "C01" => checks::evm::c01(),
        "C02" => checks::evm::c02(),
        "C03" => checks::evm::c03(),
        "C04" => checks::evm::c04(),
        "C05" => checks::evm::c05(),
        "C06" => checks::evm::c06(),
        "C07" => checks::seg::c07(),
        "C16" => checks::decoder::c16(),
        "C17" => checks::wire::c17(),
        "C18" => checks::kernasm::c18(),
        "C19" => checks::tower::c19(),
        "C20" => checks::evm::c20(),
        "C08" => checks::starks::c08(),
        "C09" => checks::starks::c09(),
        "C10" => checks::agg::c10(),
        "C21" => checks::pv::c21(),
        "C12" => checks::mpt::c12(),
        "C13" => checks::mpt::c13(),
        "C14" => checks::nibbles::c14(),
        "C15" => checks::smt::c15(),
        _ => return None,
    })
}

/// Prints the code's own log (`ZKVP_LOG=debug`), for looking at a replay.
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{}", r.args());
    }
    fn flush(&self) {}
}

fn main() {
    if let Some(l) = std::env::var("ZKVP_LOG").ok().and_then(|l| l.parse().ok()) {
        log::set_logger(&Logger).unwrap();
        log::set_max_level(l);
    }
    fw::install_panic_hook();
    rayon::ThreadPoolBuilder::new().stack_size(256 << 20).build_global().unwrap();
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match a.get(1).map(|s| s.as_str()) {
            Some("check") => match check(&a[2]) {
                Some(c) => fw::run_check(c),
                None => {
                    eprintln!("unknown property {}", a[2]);
                    2
                }
            },
            Some("spec") => {
                println!("{}", spec::build(&std::fs::read_to_string(&a[2]).unwrap()));
                0
            }
            Some("wire-child") => checks::wire::child(&a[2]),
            Some("replay") => fw::replay(&a[2], check),
            _ => {
                eprintln!("usage: zkvp check <id> | replay <file>");
                2
            }
        })
        .unwrap();
    let code = t.join().unwrap_or(4);
    std::process::exit(code);
}
