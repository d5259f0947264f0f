//! Command line of the harness.

use crate::engine::{self, Check, Tier};

pub fn main_fn(all: Vec<Box<dyn Check>>) {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    let list: Vec<&dyn Check> = all.iter().map(|b| b.as_ref()).collect();
    let a1 = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match a1 {
        "list" => { for c in &list { println!("{}", c.id()); } 0 }
        "replay" => engine::replay_file(&list, args.get(2).map(|s| s.as_str()).unwrap_or("")),
        id => {
            let mut tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
            match args.get(2).map(|s| s.as_str()) {
                Some("quick") => tier = Tier::Quick,
                Some("thorough") => tier = Tier::Thorough,
                _ => {}
            }
            match list.iter().find(|c| c.id() == id) {
                Some(c) => engine::explore(*c, tier),
                None => { eprintln!("usage: mc <property>|list|replay <file>"); 2 }
            }
        }
    };
    std::process::exit(code);
}
