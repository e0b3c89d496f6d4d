mod alloc;
mod c;
mod db;
mod dl;
mod explore;
mod h;
mod model;
mod val;
mod vfs;
mod workers;
mod world;

fn main() {
    // The command line program, for C26.
    if std::env::var_os("MC_CLI").is_some() {
        std::process::exit(mentat_cli::run());
    }
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
    let only = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1).cloned());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // Panics of the code under test are caught and judged; keep stderr quiet unless asked.
    if std::env::var("MC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // SQLite's global memory statistics take a process-wide lock on every allocation.
    unsafe {
        libsqlite3_sys::sqlite3_config(libsqlite3_sys::SQLITE_CONFIG_MEMSTATUS as i32, 0);
    }
    let ctx = h::Ctx::new(&prop, tier == "thorough", seed, only);
    let run = || -> h::Info {
        macro_rules! checks {
            ($($id:literal => $m:ident),* $(,)?) => {
                match prop.as_str() {
                    $($id => { c::$m::run(&ctx); c::$m::info() })*
                    _ => {
                        eprintln!("unknown property {:?}", prop);
                        std::process::exit(2);
                    }
                }
            };
        }
        checks! {
            "C01" => c01,
            "C02" => c02,
            "C03" => c03,
            "C04" => c04,
            "C05" => c05,
            "C06" => c06,
            "C07" => c07,
            "C08" => c08,
            "C09" => c09,
            "C10" => c10,
            "C11" => c11,
            "C12" => c12,
            "C13" => c13,
            "C14" => c14,
            "C15" => c15,
    "C16" => c16,
            "C17" => c17,
            "C18" => c18,
        "C19" => c19,
    "C20" => c20,
            "C21" => c21,
            "C22" => c22,
        "C23" => c23,
        "C24" => c24,
            "C25" => c25,
            "C26" => c26,
            "C27" => c27,
        }
    };
    let info = match h::guard(run) {
        Ok(i) => i,
        Err(e) => {
            // Something the check relies on (opening a store, installing its schema, ...) panicked.
            ctx.violation(format!("{}/setup", prop), "setup", format!("the check could not be completed: {}", e));
            h::Info { level: "model_checking", rule: "", bounds: "", assumptions: vec![] }
        }
    };
    std::process::exit(ctx.finish(&info));
}
