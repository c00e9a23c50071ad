//! Command line, supervision of the worker process, replay.
use crate::engine::*;
use std::os::unix::process::{CommandExt, ExitStatusExt};

pub type Check = (&'static str, &'static str, fn(&mut Ctx));

pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 2 { eprintln!("usage: harness <property> quick|thorough [--only SECTION INDEX]"); std::process::exit(2) }
    let check = match checks.iter().find(|c| c.0 == args[0]) { Some(c) => c, None => { eprintln!("unknown property"); std::process::exit(2) } };
    let tier = match &*args[1] { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => { eprintln!("bad tier"); std::process::exit(2) } };
    let only = args.iter().position(|a| a == "--only").map(|p| Only { section: args[p + 1].clone(), index: args[p + 2].parse().unwrap() });
    if let Ok(slots) = std::env::var("HARNESS_SLOTS") {
        unsafe {
            let lim = if only.is_some() { 6u64 << 30 } else { 20u64 << 30 };
            let r = libc::rlimit { rlim_cur: lim, rlim_max: lim };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
        }
        install_panic_hook();
        let mut ctx = Ctx::new(check.0, tier, check.1, only, &slots);
        (check.2)(&mut ctx);
        std::process::exit(ctx.finish());
    }
    // Supervisor: survives crashes of the code under test and pins them on a case.
    let slots_path = format!("{}/harness-slots-{}-{}", std::env::temp_dir().display(), args[0], std::process::id());
    let run = |extra: &[String]| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(&args).args(extra).env("HARNESS_SLOTS", &slots_path);
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        c.status().expect("spawn child")
    };
    let st = run(&[]);
    let code = st.code();
    let rc = match code {
        Some(0) | Some(1) => code.unwrap(),
        _ if only.is_some() => {
            println!("case crashed or hung: {:?}", st);
            1
        }
        _ if code == Some(EXIT_HANG) || st.signal().is_some() => {
            let slots = Slots::open(&slots_path);
            let mut cand: Vec<(u64, u64)> = (0..WORKERS).filter_map(|w| slots.get(w)).collect();
            cand.sort();
            eprintln!("worker process died ({:?}); re-running {} candidate cases one by one", st, cand.len());
            let mut rc = 2;
            for (s, i) in cand {
                let st = run(&["--only".into(), format!("#{}", s), i.to_string()]);
                if st.code() != Some(0) && (st.signal().is_some() || st.code() == Some(EXIT_HANG) || st.code() == Some(1)) {
                    let what = if st.code() == Some(EXIT_HANG) { "does not terminate".to_string() } else { format!("ends the process ({:?}): crash, stack overflow or memory exhaustion", st) };
                    report(check.0, tier, &format!("#{}", s), i, "(replay the case to see its description)", &what);
                    rc = 1;
                    break;
                }
            }
            if rc == 2 { eprintln!("crash was not reproducible on a single case: no verdict"); }
            rc
        }
        _ => { eprintln!("engine error: {:?}", st); 2 }
    };
    let _ = std::fs::remove_file(&slots_path);
    std::process::exit(rc);
}
