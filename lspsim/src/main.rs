//! lspsim: the real language server, its real RPC stack and runtime, inside one simulated session.
//!
//! One process is one session. Commands arrive as JSON lines on standard input, the history leaves
//! as JSON lines on standard output. `lspsim oracle` answers questions about texts with the real
//! parser and formatter instead.

mod ext;
mod oracle;
mod pipe;

use ext::{SimHost, profile};
use pipe::Pipe;
use serde_json::{Value as J, json};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::io::BufRead;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncReadExt;

thread_local! {
    static SEQ: Cell<u64> = const { Cell::new(0) };
    static START: RefCell<Option<tokio::time::Instant>> = const { RefCell::new(None) };
}

pub fn next_seq() -> u64 {
    SEQ.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}

pub fn now_ms() -> u64 {
    START.with(|s| s.borrow().map(|t| (tokio::time::Instant::now() - t).as_millis() as u64).unwrap_or(0))
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}

/// Append one event to the history.
pub fn emit(mut v: J) {
    v["t"] = json!(now_ms());
    v["n"] = json!(next_seq());
    raw(&v);
}

fn raw(v: &J) {
    let mut s = v.to_string();
    s.push('\n');
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, 1, b[o..].as_ptr(), b.len() - o) };
        if n <= 0 {
            std::process::exit(3);
        }
        o += n as usize;
    }
}

struct Shared {
    output: Pipe,
    ended: std::sync::atomic::AtomicBool,
    notify: tokio::sync::Notify,
    reply_ms: Option<u64>,
    input: Pipe,
}

/// The editor's reading half: strict framing, automatic replies to the server's requests.
async fn editor(sh: Arc<Shared>) {
    let mut r = sh.output.reader();
    let mut buf: Vec<u8> = Vec::new();
    let mut tmp = [0u8; 4096];
    loop {
        let n = match r.read(&mut tmp).await {
            Ok(0) | Err(_) => {
                if !buf.is_empty() {
                    emit(json!({"e": "partial", "bytes": buf.len()}));
                }
                emit(json!({"e": "out_closed"}));
                return;
            }
            Ok(n) => n,
        };
        buf.extend_from_slice(&tmp[..n]);
        loop {
            let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") else {
                if buf.len() > 4096 {
                    emit(json!({"e": "bad_frame", "why": "no header end"}));
                    return;
                }
                break;
            };
            let head = String::from_utf8_lossy(&buf[..p]).into_owned();
            let mut len = None;
            for l in head.split("\r\n") {
                match l.split_once(": ") {
                    Some(("Content-Length", v)) if len.is_none() => len = v.parse::<usize>().ok(),
                    Some(("Content-Type", _)) => {}
                    _ => len = None,
                }
            }
            let Some(len) = len else {
                emit(json!({"e": "bad_frame", "why": head}));
                return;
            };
            if buf.len() < p + 4 + len {
                break;
            }
            let body: Vec<u8> = buf[p + 4..p + 4 + len].to_vec();
            buf.drain(..p + 4 + len);
            match serde_json::from_slice::<J>(&body) {
                Ok(m) => {
                    emit(json!({"e": "recv", "m": m}));
                    if m.get("method").is_some() && m.get("id").is_some() {
                        if let Some(d) = sh.reply_ms {
                            let sh = sh.clone();
                            let id = m["id"].clone();
                            tokio::spawn(async move {
                                if d > 0 {
                                    tokio::time::sleep(Duration::from_millis(d)).await;
                                }
                                let r = json!({"jsonrpc": "2.0", "id": id, "result": null});
                                sh.input.push(&frame(&r.to_string()));
                            });
                        }
                    }
                }
                // Deeper than this parser likes; the driver's may judge it.
                Err(e) if e.to_string().contains("recursion limit") => {
                    emit(json!({"e": "recvraw", "m": String::from_utf8_lossy(&body)}));
                }
                Err(e) => {
                    emit(json!({"e": "bad_frame", "why": e.to_string()}));
                    return;
                }
            }
        }
    }
}

fn frame(body: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("oracle") {
        return oracle::main();
    }
    let mut lines = std::io::stdin().lock().lines();
    let Some(Ok(first)) = lines.next() else { return };
    drop(lines);
    let cfg: J = serde_json::from_str(&first).expect("config");
    let seed = cfg["seed"].as_u64().unwrap_or(1);
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        emit(json!({"e": "panic", "why": msg, "at": at}));
    }));
    if let Some(p) = cfg["plan"].as_str() {
        simos::init(simos::Plan::from_text(p).expect("plan"));
    }
    // A fresh thread: its hash seeds come from the simulated entropy. A shipped server does
    // its work on threads of this size, too.
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || session(cfg, seed)).unwrap();
    let _ = t.join();
    simos::shutdown();
    unsafe { libc::_exit(0) }
}

fn session(cfg: J, seed: u64) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let input = Pipe::new(seed, "stdin", profile(&cfg["in"]));
    let output = Pipe::new(seed, "stdout", profile(&cfg["out"]));
    let procs = Arc::new(Mutex::new(Vec::new()));
    let host = Rc::new(SimHost {
        cfg: cfg.clone(),
        seed,
        input: input.clone(),
        output: output.clone(),
        procs: procs.clone(),
        spawned: RefCell::new(HashMap::new()),
    });
    styx_lsp::sim::install(Some(host));
    let sh = Arc::new(Shared {
        output: output.clone(),
        input: input.clone(),
        ended: false.into(),
        notify: tokio::sync::Notify::new(),
        reply_ms: cfg["reply_ms"].as_u64(),
    });
    tokio::sim::set(seed.wrapping_mul(0x9E3779B97F4A7C15), cfg["pause"].as_u64().unwrap_or(0));
    let mut clean = true;
    rt.block_on(async {
        START.with(|s| *s.borrow_mut() = Some(tokio::time::Instant::now()));
        tokio::spawn(editor(sh.clone()));
        let s2 = sh.clone();
        let server = tokio::spawn(styx_lsp::run());
        tokio::spawn(async move {
            let r = server.await;
            let ok = matches!(r, Ok(Ok(())));
            emit(json!({"e": "server_end", "ok": ok, "panic": r.as_ref().is_err_and(|e| e.is_panic())}));
            s2.ended.store(true, std::sync::atomic::Ordering::SeqCst);
            s2.notify.notify_waiters();
        });
        let mut line = String::new();
        loop {
            line.clear();
            if std::io::stdin().lock().read_line(&mut line).unwrap_or(0) == 0 {
                clean = false;
                return;
            }
            let ops: J = match serde_json::from_str(&line) {
                Ok(v) => v,
                Err(_) => return,
            };
            let mut end = false;
            for op in ops.as_array().cloned().unwrap_or_default() {
                let k = op[0].as_str().unwrap_or("");
                match k {
                    "send" => {
                        emit(json!({"e": "send", "i": op[2]}));
                        input.push(&frame(&op[1].to_string()));
                    }
                    "text" => {
                        emit(json!({"e": "send", "i": op[2]}));
                        input.push(&frame(op[1].as_str().unwrap_or("")));
                    }
                    "framed" => {
                        emit(json!({"e": "send", "i": op[2]}));
                        input.push(&unhex(op[1].as_str().unwrap_or("")));
                    }
                    "raw" => input.push(&unhex(op[1].as_str().unwrap_or(""))),
                    "eof" => {
                        emit(json!({"e": "eof"}));
                        input.close_write()
                    }
                    "cut" => {
                        emit(json!({"e": "cut"}));
                        input.close_write();
                        output.close_read();
                    }
                    "stall" => output.freeze(op[1].as_bool().unwrap_or(false)),
                    "yield" => {
                        for _ in 0..op[1].as_u64().unwrap_or(1) {
                            tokio::task::yield_now().await;
                        }
                    }
                    "wait" => {
                        let d = op[1].as_u64().unwrap_or(1);
                        let n = sh.notify.notified();
                        if !sh.ended.load(std::sync::atomic::Ordering::SeqCst) {
                            tokio::select! {
                                biased;
                                _ = n => {}
                                _ = tokio::time::sleep(Duration::from_millis(d)) => {}
                            }
                        }
                    }
                    "drain" => {
                        // After the server ended: let what it had written reach the editor.
                        tokio::time::sleep(Duration::from_millis(op[1].as_u64().unwrap_or(1))).await
                    }
                    "end" => end = true,
                    _ => panic!("bad op"),
                }
            }
            raw(&json!({"e": "batch", "t": now_ms(), "ended": sh.ended.load(std::sync::atomic::Ordering::SeqCst),
                        "in": input.total(), "steps": simos::steps(), "pauses": tokio::sim::count()}));
            if end {
                return;
            }
        }
    });
    // The process ends: whatever the server left running in it is dropped.
    drop(rt);
    if clean {
        raw(&json!({"e": "end", "procs": ext::table(&procs), "steps": simos::steps()}));
    }
}
