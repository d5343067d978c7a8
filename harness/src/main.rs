extern crate alloc;

mod btc;
mod ledger;
mod mock;
mod names;
mod proto;
mod run;
mod scen;
mod sealdefs;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
    let flag = |f: &str| args.iter().any(|a| a == f);
    match get(1) {
        "run" => {
            let file: scen::File = serde_json::from_slice(&std::fs::read(get(3)).unwrap()).unwrap();
            match get(2) {
                "btc" => run::run::<btc::Btc>(&file, get(4), flag("--apart"), flag("--trips")),
                "mock" => run::run::<mock::Mock>(&file, get(4), flag("--apart"), flag("--trips")),
                x => panic!("protocol {x}"),
            }
        }
        "sealdefs" => sealdefs::main(get(2), get(3)),
        _ => {
            eprintln!("usage: conform run btc|mock IN OUT [--apart] [--trips] | conform sealdefs IN OUT");
            std::process::exit(2);
        }
    }
}
