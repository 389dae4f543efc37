mod cons;
mod order;
mod parse;
mod parts;
mod pure;
mod repo;
mod tree;
mod util;

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    if argv.len() < 2 {
        eprintln!("usage: vh run|replay|show <property> [...]");
        std::process::exit(2);
    }
    let src = ["/repo/core/src", "/repo/python/src"];
    macro_rules! go {
        ($($id:literal => $p:expr),* $(,)?) => {
            match argv[1].as_str() {
                $($id => vcore::runner::main_with($p, &argv, &src),)*
                x => { eprintln!("no property {}", x); std::process::exit(2) }
            }
        };
    }
    go! {
        "C01" => order::C01, "C02" => order::C02, "C03" => order::C03, "C04" => order::C04, "C05" => order::C05,
        "C06" => parse::C06, "C07" => parse::C07, "C08" => parse::C08,
        "C09" => cons::C09, "C10" => cons::C10, "C18" => cons::C18, "C19" => cons::C19, "C21" => cons::C21,
        "C11" => tree::C11, "C12" => tree::C12, "C13" => tree::C13, "C14" => tree::C14,
        "C15" => repo::C15, "C16" => repo::C16, "C20" => pure::C20, "C22" => parts::C22, "C23" => parts::C23, "C24" => parts::C24,
    }
}
