mod arrow_read;
mod gen;
mod model;
mod ops;
mod p_cmp;
mod p_arrow;
mod p_buf;
mod p_bytes;
mod p_comp;
mod p_core;
mod p_expr;
mod p_file;
mod p_io;
mod p_misc;
mod p_parts;
mod p_stats;
mod p_time;
mod p_types;
mod p_wire;
mod report;
mod stat_model;

fn main() {
    // backtraces inside error values are slow and would make messages unstable
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or("quick".into());
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    report::install_panic_hook();
    let ctx = report::Ctx::new(&id, tier == "thorough", only, &format!("{verif}/known_findings.json"));
    let r = report::guard_long(|| match id.as_str() {
        "C01" => p_core::c01(&ctx),
        "C02" => p_core::c02(&ctx),
        "C03" => p_core::c03(&ctx),
        "C04" => p_core::c04(&ctx),
        "C05" => p_core::c05(&ctx),
        "C11" => p_core::c11(&ctx),
        "C09" => p_stats::c09(&ctx),
        "C16" => p_wire::c16(&ctx),
        "C17" => p_file::c17(&ctx),
        "C18" => p_file::c18(&ctx),
        "C19" => p_io::c19(&ctx),
        "C20" => p_io::c20(&ctx),
        "C21" => p_io::c21(&ctx),
        "C26" => p_expr::c26(&ctx),
        "C29" => p_buf::c29(&ctx),
        "C30" => p_bytes::c30(&ctx),
        "C31" => p_bytes::c31(&ctx),
        "C32" => p_parts::c32(&ctx),
        "C33" => p_time::c33(&ctx),
        "C23" => p_arrow::c23(&ctx),
        "C24" => p_types::c24(&ctx),
        "C25" => p_types::c25(&ctx),
        "C22" => p_comp::c22(&ctx),
        "C15" => p_wire::c15(&ctx),
        "C12" => p_misc::c12(&ctx),
        "C13" => p_misc::c13(&ctx),
        "C14" => p_misc::c14(&ctx),
        "C10" => p_stats::c10(&ctx),
        "C06" => p_cmp::c06(&ctx),
        "C07" => p_cmp::c07(&ctx),
        "C08" => p_cmp::c08(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    });
    if let Err(m) = r {
        // What the exploration builds its states with is code under test too; it doesn't fail where the property holds.
        let m = format!("{m} {}", report::any_panic());
        if m.contains("failed to spawn thread") {
            println!("no answer: the explorer itself failed: {m}");
            std::process::exit(2);
        }
        ctx.fail("exploration".into(), format!("the exploration came to no end: {m}"));
    }
    std::process::exit(ctx.finish(&verif));
}
