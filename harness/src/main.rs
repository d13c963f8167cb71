mod rt;
mod util;
mod cmd;
mod sys;
mod c01;
mod c02;
mod c03;
mod c04;
mod c06;
mod c09;
mod c10;
mod c12;
mod c13;
mod c16;
mod c14;
mod c15;
mod c17;
mod c20;
mod c22;
mod model;
mod options;
mod formula;

use rt::{Prop, Tier};

fn props() -> Vec<Prop> {
    vec![c01::prop(), c01::prop02(), c03::prop(), c04::prop(), c04::prop05(), c06::prop06(), c06::prop07(), c09::prop(), c10::prop(), c10::prop11(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c16::prop19(), c17::prop(), c20::prop(), c22::prop()]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: vh <ID> quick|thorough [--index N]";
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| props().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    if args.len() < 3 {
        eprintln!("{usage}");
        std::process::exit(2);
    }
    if args[1] == "__worker" {
        rt::worker_main(&find(&args[2]), tier(&args[3]), &args[4..]);
        return;
    }
    let only = args.iter().position(|a| a == "--index").map(|i| args[i + 1].parse().unwrap());
    std::process::exit(rt::parent_main(&find(&args[1]), tier(&args[2]), only));
}
