//! Stand-ins for the programs the command-line tool starts, chosen by the name they are called by.
//!
//! `curl`: answers from `<dir of this link>/curl.conf`; `cargo`: records what would be published.
//! `embed`: writes embedded-schema blobs in the documented binary format (an implementation of its
//! own, independent of styx-embed's).
//! Every call is recorded in `<dir>/log` (one line: program, arguments, variables holding the token).

use std::io::{Read, Write};
use std::path::{Path, PathBuf};

fn conf(dir: &Path, name: &str) -> Vec<Vec<String>> {
    std::fs::read_to_string(dir.join(format!("{name}.conf")))
        .unwrap_or_default()
        .lines()
        .map(|l| l.split('\t').map(String::from).collect())
        .collect()
}

fn record(dir: &Path, line: &str) {
    let mut f = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join("log"))
        .unwrap();
    f.write_all(format!("{line}\n").as_bytes()).unwrap();
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let me = PathBuf::from(&argv[0]);
    let name = me.file_name().unwrap().to_string_lossy().into_owned();
    if name == "embed" || name == "helper" {
        return embed();
    }
    // called through PATH: argv[0] is the bare name; find our directory in PATH
    let dir = std::env::var("PATH")
        .unwrap_or_default()
        .split(':')
        .map(PathBuf::from)
        .find(|d| d.join(&name).exists())
        .expect("helper not in PATH");
    let rules = conf(&dir, &name);
    let token = rules
        .iter()
        .find(|r| r[0] == "token")
        .map(|r| r[1].clone())
        .unwrap_or_default();
    let holders: Vec<String> = std::env::vars()
        .filter(|(_, v)| !token.is_empty() && v.contains(&token))
        .map(|(k, _)| k)
        .collect();
    let in_args = !token.is_empty() && argv.iter().any(|a| a.contains(&token));
    record(
        &dir,
        &format!(
            "call\t{name}\t{}\t{}\t{}",
            argv[1..].join("\x1f").replace(['\n', '\t'], " "),
            holders.join(","),
            in_args as u8
        ),
    );
    match name.as_str() {
        "curl" => curl(&dir, &argv[1..], &rules),
        "cargo" => cargo(&dir, &rules),
        _ => real(&name, &argv[1..], &rules),
    }
}

/// Anything else is the real program, whose result may be replaced.
fn real(name: &str, args: &[String], rules: &[Vec<String>]) {
    let path = ["/usr/bin", "/bin"].iter().map(|d| Path::new(d).join(name)).find(|p| p.exists());
    let Some(path) = path else { std::process::exit(127) };
    let status = std::process::Command::new(path).args(args).status().unwrap();
    let rule = rules.iter().find(|r| r[0] == "result").cloned().unwrap_or_default();
    match rule.get(1).map(|s| s.as_str()) {
        Some("kill") => suicide(),
        Some(code) => std::process::exit(code.parse().unwrap()),
        None => std::process::exit(status.code().unwrap_or(1)),
    }
}

fn suicide() -> ! {
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
    }
    loop {}
}

fn curl(dir: &Path, args: &[String], rules: &[Vec<String>]) {
    let mut url = String::new();
    let mut out = None;
    let mut fmt = None;
    let mut fail = false;
    let mut timeout = false;
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        let mut take = || {
            i += 1;
            args.get(i).cloned().unwrap_or_default()
        };
        match a.as_str() {
            "-o" | "--output" => out = Some(take()),
            "-w" | "--write-out" => fmt = Some(take()),
            "-H" | "--header" | "-A" | "--user-agent" | "--retry" | "--retry-delay" | "-X" | "--proto" => {
                take();
            }
            "-m" | "--max-time" => {
                take();
                timeout = true;
            }
            "--connect-timeout" => {
                take();
            }
            "-y" | "--speed-time" | "-Y" | "--speed-limit" => {
                take();
                timeout = true;
            }
            "--fail" | "--fail-with-body" => fail = true,
            _ if a.starts_with("--max-time=") => timeout = true,
            _ if a.starts_with("--output=") => out = Some(a[9..].to_string()),
            _ if a.starts_with("--") => {}
            _ if a.starts_with('-') && a.len() > 1 => {
                let f: Vec<char> = a[1..].chars().collect();
                fail |= f.contains(&'f');
                match f.last() {
                    Some('o') => out = Some(take()),
                    Some('w') => fmt = Some(take()),
                    Some('m') => {
                        take();
                        timeout = true;
                    }
                    _ => {}
                }
            }
            _ => url = a.clone(),
        }
        i += 1;
    }
    let Some(rule) = rules.iter().find(|r| r[0] == "url" && url.contains(&r[1])) else {
        record(dir, &format!("unknown-url\t{url}"));
        std::process::exit(6);
    };
    let body = |f: &str| std::fs::read(dir.join(f)).unwrap();
    let emit = |data: &[u8]| match &out {
        Some(p) if p != "-" => {
            if std::fs::write(p, data).is_err() {
                std::process::exit(23);
            }
        }
        _ => {
            // curl exits 23 when its output is closed
            if std::io::stdout().write_all(data).and_then(|_| std::io::stdout().flush()).is_err() {
                std::process::exit(23);
            }
        }
    };
    let write_out = |code: u32| {
        if let Some(f) = &fmt {
            let s = f
                .replace("%{http_code}", &format!("{code:03}"))
                .replace("%{response_code}", &format!("{code:03}"))
                .replace("\\n", "\n");
            print!("{s}");
            let _ = std::io::stdout().flush();
        }
    };
    match rule[2].as_str() {
        "ok" => {
            let code: u32 = rule[3].parse().unwrap();
            if code >= 400 && fail {
                write_out(code);
                std::process::exit(22);
            }
            emit(&body(&rule[4]));
            write_out(code);
        }
        "exit" => {
            write_out(0);
            std::process::exit(rule[3].parse().unwrap());
        }
        "trunc" => {
            let d = body(&rule[4]);
            let n: usize = rule[3].parse().unwrap();
            emit(&d[..n.min(d.len())]);
            write_out(200);
            std::process::exit(18);
        }
        "kill" => {
            let d = body(&rule[4]);
            let n: usize = rule[3].parse().unwrap();
            emit(&d[..n.min(d.len())]);
            suicide();
        }
        "stall" => {
            if timeout {
                write_out(0);
                std::process::exit(28);
            }
            record(dir, "hang");
            // a real curl would wait for ever; give a caller with a timer of its own a chance
            std::thread::sleep(std::time::Duration::from_secs(20));
            record(dir, "hung");
            suicide();
        }
        _ => std::process::exit(2),
    }
}

fn cargo(dir: &Path, rules: &[Vec<String>]) {
    let n = (0..).find(|n| !dir.join(format!("published.{n}")).exists()).unwrap();
    let dst = dir.join(format!("published.{n}"));
    std::fs::create_dir(&dst).unwrap();
    copy(&std::env::current_dir().unwrap(), &dst);
    record(dir, &format!("cwd\t{}", std::env::current_dir().unwrap().display()));
    let rule = rules.iter().find(|r| r[0] == "result").cloned().unwrap_or_default();
    match rule.get(1).map(|s| s.as_str()) {
        Some("kill") => suicide(),
        Some(code) => std::process::exit(code.parse().unwrap()),
        None => {}
    }
}

fn copy(from: &Path, to: &Path) {
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            std::fs::create_dir(&t).unwrap();
            copy(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), &t).unwrap();
        }
    }
}

/// stdin: lines "<v1|v2> <out file> <schema file>..."; writes one blob per line.
fn embed() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for line in s.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        let mut out = Vec::new();
        let v1 = w[0] == "v1";
        if v1 {
            out.extend_from_slice(b"STYX_SCHEMAS_V1\0");
            out.extend_from_slice(&((w.len() - 2) as u16).to_le_bytes());
        }
        for f in &w[2..] {
            let d = std::fs::read(f).unwrap();
            let mut c = (d.len() as u32).to_le_bytes().to_vec();
            c.extend_from_slice(&lz4_flex::block::compress(&d));
            if !v1 {
                out.extend_from_slice(b"STYX_SCHEMA_V2\0\0");
            }
            out.extend_from_slice(&(d.len() as u32).to_le_bytes());
            out.extend_from_slice(&(c.len() as u32).to_le_bytes());
            out.extend_from_slice(blake3::hash(&d).as_bytes());
            out.extend_from_slice(&c);
        }
        std::fs::write(w[1], out).unwrap();
    }
}
