mod eng;
mod props;
mod sched;
mod sut;
mod wb;

use eng::{Ctx, Tier, World};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&args[2]));
    }
    if args.get(1).map(|s| s.as_str()) == Some("deep") {
        std::process::exit(props::misc::deep(&args[2..]));
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("peer-hashes") => std::process::exit(props::engine::hashes(&args[2], &args[3])),
        Some("peer-show") => std::process::exit(props::engine::show_texts(&args[2])),
        Some("peer-parse-tables") => std::process::exit(props::regen::dump(&args[2])),
        Some("fresh-process") => std::process::exit(props::tree::fresh_process(&args[2])),
        Some("words-alone") => std::process::exit(props::tree::words_alone(&args[2])),
        Some("first-calls") => std::process::exit(props::tree::first_calls(&args[2..])),
        Some("peer-tables") => std::process::exit(props::engine::tables(&args[2])),
        _ => {}
    }
    let id = args[1].clone();
    let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let evidence = args.get(3).cloned().unwrap_or_else(|| format!("/verif/evidence/{id}.json"));
    let w = World::new();
    let c = Ctx::new(&id, tier);
    refpg::watch::start(&id);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&c, &w)));
    match r {
        Ok(model) => std::process::exit(if c.finish(Some(&w), &evidence, &model) { 0 } else { 1 }),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("the check itself failed: {m:?}");
            std::process::exit(2)
        }
    }
}

fn replay(path: &str) -> i32 {
    let j = std::fs::read_to_string(path).expect("replay file");
    let text = eng::serde_lite::get_str(&j, "text").expect("text");
    let w = World::new();
    let want = w.r.parse(&text, w.keep_empty);
    let got = w.sut.parse(&text);
    println!("input:    {text:?}\nexpected: {}\ngot:      {}", eng::show(&w, &want), eng::show(&w, &got));
    if want == got {
        println!("agree");
        0
    } else {
        println!("DIFFER");
        1
    }
}
