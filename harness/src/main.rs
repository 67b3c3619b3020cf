mod checks_err;
mod checks_hist;
mod checks_io;
mod checks_num;
mod checks_text;
mod checks_utils;
mod checks_xml;
mod driver;
mod gen;
mod ptext;
mod refnum;
mod refw;
mod strs;
mod tape;
mod wide;
mod xnode;

use driver::*;

fn all(id: &str) -> Option<Check> {
    checks_xml::check(id).or_else(|| checks_hist::check(id)).or_else(|| checks_io::check(id)).or_else(|| checks_err::check(id)).or_else(|| checks_num::check(id)).or_else(|| checks_utils::check(id)).or_else(|| checks_text::check(id))
}

/// Render the input of a case whose library call does not return, in a child with a CPU limit.
pub fn render_in_child(id: &str, phase: usize, tape: &[u32]) -> String {
    let path = write_replay(id, phase, tape, "", "");
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("sh")
        .args(["-c", "ulimit -t 5; ulimit -v 8000000; exec \"$0\" \"$1\" --replay \"$2\""])
        .arg(exe)
        .arg(id)
        .arg(&path)
        .output();
    match out {
        Ok(o) => String::from_utf8_lossy(&o.stderr).to_string(),
        Err(e) => format!("(not rendered: {e})"),
    }
}

/// Runs the check in a child process, so that a stack overflow, an abort or an exit inside
/// the code under test still yields the case that did it.
fn supervise(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let path = format!("/tmp/jlx-slots.{}", std::process::id());
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new(&exe).args([id, tier]).env("JLX_SLOTS", &path).status();
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("HARNESS ERROR: {e}");
            return 2;
        }
    };
    let code = status.code();
    let cases = if matches!(code, Some(0..=2)) { vec![] } else { Shared::open(&path).map(|s| s.running()).unwrap_or_default() };
    std::fs::remove_file(&path).ok();
    if let Some(c @ 0..=2) = code {
        return c;
    }
    println!("check process ended with {status}");
    if status.signal() == Some(libc::SIGKILL) {
        eprintln!("HARNESS ERROR: killed");
        return 2;
    }
    for (phase, tape) in cases {
        let replay = write_replay(id, phase, &tape, "the process ends abnormally (stack overflow, abort or exit) on this input", "");
        let out = std::process::Command::new(&exe).args([id, "--replay", &replay]).output();
        if let Ok(o) = out {
            if !matches!(o.status.code(), Some(0..=2)) {
                let tail: String = String::from_utf8_lossy(&o.stderr).chars().take(3000).collect();
                println!("{tail}\nreproduced: the process ends abnormally ({})", o.status);
                println!("VIOLATION property={id} replay={replay}");
                return 1;
            }
        }
        std::fs::remove_file(&replay).ok();
    }
    eprintln!("HARNESS ERROR: abnormal end, not reproduced");
    2
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--history") {
        std::process::exit(checks_hist::child(&args[2], &args[3]));
    }
    let id = args.get(1).expect("usage: jlx-check ID [quick|thorough] [--replay FILE]").clone();
    let check = all(&id).unwrap_or_else(|| {
        eprintln!("HARNESS ERROR: no check {id}");
        std::process::exit(2)
    });
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        std::process::exit(replay(&check, &args[i + 1]));
    }
    let tier = args.get(2).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match std::env::var("JLX_SLOTS") {
        Ok(p) => {
            if let Some(s) = Shared::open(&p) {
                SHARED.set(s).ok();
            }
            std::process::exit(run_check(&check, &Ctx { tier, seed }));
        }
        Err(_) => std::process::exit(supervise(&id, &tier)),
    }
}
