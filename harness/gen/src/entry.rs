//! The root module of this crate is made by prepare.sh from the generator's own.
//! Checks of the generators: table construction (C19), automaton construction (C20), file readers (C22).
#![allow(dead_code)]
mod auto;
#[cfg(feature = "tables")]
mod bison;
#[cfg(any(feature = "tables", feature = "flex"))]
mod reader;
mod report;
#[cfg(feature = "tables")]
mod tables;

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "tables")]
    if a[1] == "bison-conformance" {
        let mut c = report::Ctx::new("C19", true);
        c.bison = Some(bison::Conf { dir: a[2].clone(), same: 0.into(), useless: 0.into() });
        match a.get(3) {
            Some(_) => tables::families(&c, &tables::SIZES),
            None => tables::check(&c),
        }
        let b = c.bison.unwrap();
        println!("{:?} grammars with the same automaton, {:?} rejected by bison", b.same, b.useless);
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    refpg::watch::start(&a[1]);
    let c = report::Ctx::new(&a[1], a[2] != "thorough");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match a[1].as_str() {
        #[cfg(feature = "tables")]
        "C19" => tables::check(&c),
        "C20" => auto::check(&c),
        #[cfg(any(feature = "tables", feature = "flex"))]
        "C22" => reader::check(&c),
        _ => panic!("unknown property"),
    }));
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("the check itself failed: {m:?}");
        std::process::exit(2);
    }
    std::process::exit(if c.finish(&a[3]) { 0 } else { 1 });
}
