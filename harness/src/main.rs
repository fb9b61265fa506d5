//! kulmon: runtime monitors for the kul crates.  `kulmon <ID>` decides one
//! property; the seed and tier come from the environment.

mod configs;
mod gen;
mod heap;
mod model;
mod monsrc;
mod obs;
mod props;
mod rng;
mod runner;
mod wrap;

use runner::{Ctx, Tier};

#[global_allocator]
static ALLOC: heap::Counting = heap::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).and_then(|v| {
        let (s, i) = v.rsplit_once(':')?;
        Some((s.to_string(), i.parse().ok()?))
    });
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
    let verif = std::env::var("KULMON_VERIF").map_or_else(|_| std::env::current_dir().unwrap(), Into::into);
    if std::env::var_os("KULMON_CHILD").is_none() {
        std::process::exit(wrap::parent(&id, seed, tier == Tier::Quick, only.is_some(), &verif));
    }
    runner::install_panic_hook();
    wrap::install_abort_hook();
    let mut ctx = Ctx::new(&id, seed, tier, only);
    let f: fn(&mut Ctx) = match id.as_str() {
        "C01" => props::parse::c01,
        "C02" => props::parse::c02,
        "C03" => props::parse::c03,
        "C04" => props::parse::c04,
        "C05" => props::parse::c05,
        "C06" => props::parse::c06,
        "C07" => props::parse::c07,
        "C08" => props::parse::c08,
        "C11" => props::parse::c11,
        "C09" => props::flow::c09,
        "C10" => props::flow::c10,
        "C12" => props::flow::c12,
        "C14" => props::flow::c14,
        "C24" => props::flow::c24,
        "C25" => props::flow::c25,
        "C13" => props::bare::c13,
        "C15" => props::stack::c15,
        "C16" => props::drops::c16,
        "C17" => props::drops::c17,
        "C22" => props::drops::c22,
        "C18" => props::threads::c18,
        "C19" => props::texts::c19,
        "C20" => props::texts::c20,
        "C21" => props::texts::c21,
        "C23" => props::texts::c23,
        "C26" => props::parse::c26,
        "C27" => props::more::c27,
        "C28" => props::more::c28,
        "C29" => props::more::c29,
        "C31" => props::extra::c31,
        "C32" => props::extra::c32,
        "C33" => props::extra::c33,
        "C34" => props::extra::c34,
        "C35" => props::extra::c35,
        "C30" => props::threads::c30,
        _ => { eprintln!("unknown property {id:?}"); std::process::exit(2) }
    };
    f(&mut ctx);
    std::process::exit(ctx.finish(&verif));
}
