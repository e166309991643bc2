mod cli;
mod conc;
mod crash;
mod exec;
mod gen;
mod golden;
mod ids;
mod jtext;
mod mapper;
mod rng;
mod run;
mod store;
mod tour;
mod trace;
mod watch;
mod wire;

use std::collections::HashMap;

/// `vh <command> key=value ...`
fn main() {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    let mut kv = HashMap::new();
    for x in a {
        let (k, v) = x.split_once('=').unwrap_or_else(|| panic!("bad argument {x}"));
        kv.insert(k.to_string(), v.to_string());
    }
    // expected panics of the code under test are recorded as results, not printed
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    watch::start();
    let rc = match cmd.as_str() {
        "run" => run::run(&kv),
        "replay" => run::replay(&kv),
        "bigmap" => run::bigmap(&kv),
        "big" => run::big(&kv),
        "conc" => conc::conc(&kv),
        "child" => crash::child(&kv),
        "crash" => crash::crash(&kv),
        "creation" => crash::creation(&kv),
        "syncfault" => crash::syncfault(&kv),
        "wire" => wire::wire(&kv),
        "cutoff" => wire::cutoff(&kv),
        "goldgen" => golden::goldgen(&kv),
        "golden" => golden::golden(&kv),
        "idents" => ids::idents(&kv),
        "wireids" => ids::wireids(&kv),
        "idgen" => ids::idgen(&kv),
        "cli" => cli::cli(&kv),
        "tour" => tour::tour(&kv),
        _ => {
            eprintln!("unknown command {cmd:?}");
            2
        }
    };
    std::process::exit(rc);
}
