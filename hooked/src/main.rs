//! The explorers that need the hooks of the feature `verif`.
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/util.rs"]
mod util;
#[path = "../../harness/src/options.rs"]
#[allow(dead_code)]
mod options;
#[path = "../../harness/src/cmd.rs"]
mod cmd;
mod c08;
mod c18;
mod c21;
mod c23;
mod google;
mod seed;

use rt::{Prop, Tier};

fn props() -> Vec<Prop> {
    vec![c08::prop(), c18::prop(), c21::prop(), c23::prop()]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: vhh <ID> quick|thorough [--index N]";
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| props().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    if args.len() < 3 {
        eprintln!("{usage}");
        std::process::exit(2);
    }
    if args[1] == "__worker" {
        rt::worker_main(&find(&args[2]), tier(&args[3]), &args[4..]);
        return;
    }
    let only = args.iter().position(|a| a == "--index").map(|i| args[i + 1].parse().unwrap());
    std::process::exit(rt::parent_main(&find(&args[1]), tier(&args[2]), only));
}
