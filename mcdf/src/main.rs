//! C28: queries through the DataFusion integration. A separate program, as the query engine takes long to build.
#[path = "../../mc/src/arrow_read.rs"]
mod arrow_read;
#[allow(dead_code)]
#[path = "../../mc/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../mc/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../mc/src/ops.rs"]
mod ops;
mod p_query;
#[allow(dead_code)]
#[path = "../../mc/src/report.rs"]
mod report;

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or("quick".into());
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    report::install_panic_hook();
    let ctx = report::Ctx::new(&id, tier == "thorough", only, &format!("{verif}/known_findings.json"));
    let r = report::guard_long(|| match id.as_str() {
        "C28" => p_query::c28(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    });
    if let Err(m) = r {
        // What the exploration builds its states with is code under test too; it doesn't fail where the property holds.
        let m = format!("{m} {}", report::any_panic());
        if m.contains("failed to spawn thread") {
            println!("no answer: the explorer itself failed: {m}");
            std::process::exit(2);
        }
        ctx.fail("exploration".into(), format!("the exploration came to no end: {m}"));
    }
    std::process::exit(ctx.finish(&verif));
}
