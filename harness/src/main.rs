mod attrs;
mod cg;
mod clock;
mod exec;
mod fault;
mod gen;
mod hist;
mod insn;
mod more;
mod sched;
mod trace;
mod pcheck;
mod pcheck2;
mod pr;
mod race;
mod refdot;
mod refprint;
mod shapes;
mod run;
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[0].as_str() {
        "deep" => return pcheck2::deep_child(&args[1..]),
        "pdeep" => return more::pdeep_child(&args[1..]),
        "one" => return pcheck2::one_child(&args[1..]),
        _ => {}
    }
    let thorough = args.get(1).map(|s| s == "thorough").unwrap_or(false);
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<usize>().ok());
    let shard = num(2).zip(num(3));
    run::supervise(&args[0], thorough, shard);
    let mut run = run::Run::new(&args[0], thorough);
    if args[0] == "C13" {
        run.level = "fault_enumeration";
    }
    run.shard = shard;
    let run = Arc::new(run);
    run.watchdog();
    let r2 = run.clone();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let run = &r2;
            match run.id.as_str() {
                "C01" => pcheck::c01(run),
                "C02" => pcheck::c02(run),
                "C03" => pcheck::c03(run),
                "C04" => pcheck2::c04(run),
                "C05" => pcheck2::c05(run),
                "C06" if run.shard.is_some() => race::shard(run),
                "C06" => pcheck2::c06(run),
                "C07" => pr::c07(run),
                "C12" => exec::c12(run),
                "C13" => fault::c13(run),
                "C14" => sched::c14(run),
                "C15" => exec::c15(run),
                "C16" => gen::c16(run),
                "C17" => gen::c17(run),
                "C18" => gen::c18(run),
                "C19" => hist::c19(run),
                "C20" => more::c20(run),
                "C21" => more::c21(run),
                "C08" if run.shard.is_some() => cg::shard(run),
                "C08" => cg::c08(run),
                "C09" => pr::c09(run),
                "C10" => pr::c10(run),
                "C11" => pr::c11(run),
                x => {
                    eprintln!("unknown property {}", x);
                    std::process::exit(2);
                }
            }
        })
        .unwrap();
    if let Err(e) = h.join() {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("the check itself failed: {}", m);
        std::process::exit(2);
    }
    std::process::exit(run.finish());
}
