//! Simulated extension processes: real RPC sessions with scripted misbehaviour.

use crate::pipe::{Pipe, Profile, Reader, Writer};
use crate::{emit, fnv, now_ms};
use serde_json::{Value as J, json};
use simos::rng::Rng;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::pin::Pin;
use std::process::ExitStatus;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use std::time::Duration;
use styx_lsp::sim::{BoxRead, BoxWrite, Host, process};
use styx_lsp_ext as ext;
use styx_lsp_ext::{StyxLspExtension, StyxLspExtensionDispatcher, StyxLspHostClient};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use vox_stream::StreamLink;

pub struct SimHost {
    pub cfg: J,
    pub seed: u64,
    pub input: Pipe,
    pub output: Pipe,
    pub procs: Arc<Mutex<Vec<Arc<Proc>>>>,
    pub spawned: RefCell<HashMap<String, usize>>,
}

pub struct Proc {
    pub pid: u32,
    pub program: String,
    pub stdin: Pipe,
    pub stdout: Pipe,
    pub state: Mutex<ProcState>,
    notify: tokio::sync::Notify,
}

#[derive(Default)]
pub struct ProcState {
    pub killed: bool,
    pub exited: Option<i32>,
    pub calls: u64,
    pub stubborn: bool,
    pub stalled: bool,
}

impl Proc {
    pub fn alive(&self) -> bool {
        self.state.lock().unwrap().exited.is_none()
    }
    pub fn exit(&self, code: i32, killed: bool) {
        {
            let mut s = self.state.lock().unwrap();
            if s.exited.is_some() {
                return;
            }
            s.exited = Some(code);
            s.killed = killed;
        }
        emit(json!({"e": if killed {"killed"} else {"exit"}, "pid": self.pid, "code": code}));
        self.stdin.close_read();
        self.stdout.close_write();
        self.notify.notify_waiters();
    }
}

struct Ctl(Arc<Proc>);

impl process::Control for Ctl {
    fn id(&self) -> u32 {
        self.0.pid
    }
    fn kill(&self) -> io::Result<()> {
        self.0.exit(9, true);
        Ok(())
    }
    fn try_wait(&self) -> io::Result<Option<ExitStatus>> {
        Ok(self.0.state.lock().unwrap().exited.map(ExitStatus::from_raw))
    }
    fn wait(&self) -> process::WaitFuture {
        let p = self.0.clone();
        Box::pin(async move {
            loop {
                let n = p.notify.notified();
                if let Some(c) = p.state.lock().unwrap().exited {
                    return Ok(ExitStatus::from_raw(c));
                }
                n.await;
            }
        })
    }
}

pub fn profile(v: &J) -> Profile {
    let d = v["delay"].as_array().cloned().unwrap_or_default();
    let g = |i: usize| d.get(i).and_then(|x| x.as_u64()).unwrap_or(0);
    Profile {
        delay: (g(0), g(1)),
        seg: v["seg"].as_u64().unwrap_or(0) as usize,
        spurious: v["spurious"].as_u64().unwrap_or(0) as usize,
        cap: v["cap"].as_u64().unwrap_or(65536) as usize,
    }
}

impl Host for SimHost {
    fn stdio(&self) -> (BoxRead, BoxWrite) {
        (BoxRead(Box::new(self.input.reader())), BoxWrite(Box::new(self.output.writer())))
    }
    fn spawn(&self, c: &process::Command) -> io::Result<process::Child> {
        let program = c.program.to_string_lossy().into_owned();
        let args: Vec<String> = c.args.iter().map(|a| a.to_string_lossy().into_owned()).collect();
        let n = {
            let mut m = self.spawned.borrow_mut();
            let e = m.entry(program.clone()).or_insert(0);
            *e += 1;
            *e - 1
        };
        let pid = 5000 + self.procs.lock().unwrap().len() as u32;
        let list = &self.cfg["exts"][&program];
        let b = match list.as_array() {
            Some(l) if !l.is_empty() => l[n.min(l.len() - 1)].clone(),
            _ => J::Null,
        };
        let fail = b.is_null() || b["spawn_err"].as_bool() == Some(true);
        emit(json!({"e": "spawn", "program": program, "args": args, "pid": if fail {J::Null} else {json!(pid)},
                    "ok": !fail, "kod": c.kill_on_drop}));
        if fail {
            return Err(io::Error::from_raw_os_error(if b.is_null() { 2 } else { 12 }));
        }
        let label = format!("ext{pid}");
        let p = profile(&b["pipe"]);
        let stdin = Pipe::new(self.seed, &format!("{label}in"), p.clone());
        let stdout = Pipe::new(self.seed, &format!("{label}out"), p);
        let proc = Arc::new(Proc {
            pid,
            program,
            stdin: stdin.clone(),
            stdout: stdout.clone(),
            state: Mutex::new(ProcState { stubborn: b["stubborn"].as_bool() == Some(true), ..Default::default() }),
            notify: tokio::sync::Notify::new(),
        });
        self.procs.lock().unwrap().push(proc.clone());
        let child = process::Child::simulated(
            BoxWrite(Box::new(stdin.writer())),
            BoxRead(Box::new(stdout.reader())),
            Arc::new(Ctl(proc.clone())),
        );
        tokio::spawn(run(proc, b, Rng::derive(self.seed, &label), self.cfg["uris"].clone()));
        Ok(child)
    }
}

/// The extension's own ends of its pipes; dropping them does not end the process.
struct ExtIn(Reader);
struct ExtOut(Writer);
impl AsyncRead for ExtIn {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl AsyncWrite for ExtOut {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

async fn ms(n: u64) {
    if n > 0 {
        tokio::time::sleep(Duration::from_millis(n)).await
    }
}

fn num(b: &J, k: &str) -> u64 {
    b[k].as_u64().unwrap_or(0)
}

async fn run(proc: Arc<Proc>, b: J, rng: Rng, uris: J) {
    // A well-behaved process ends when its standard input is closed.
    if b["stubborn"].as_bool() != Some(true) {
        let p = proc.clone();
        let linger = num(&b, "linger_ms");
        tokio::spawn(async move {
            p.stdin.on_write_closed().await;
            ms(linger).await;
            p.exit(0, false);
        });
    }
    ms(num(&b, "handshake_ms")).await;
    if !proc.alive() {
        return;
    }
    match b["handshake"].as_str().unwrap_or("ok") {
        "never" => return,
        "exit" => return proc.exit(256, false),
        "garbage" => return proc.stdout.push(&garbage(&rng)),
        _ => {}
    }
    let reader = ExtIn(proc.stdin.reader());
    let writer = ExtOut(proc.stdout.writer());
    let cell = Arc::new(OnceLock::new());
    let imp = Ext {
        proc: proc.clone(),
        b: Arc::new(b),
        rng: Arc::new(Mutex::new(rng)),
        host: cell.clone(),
        uris: Arc::new(uris),
        src: Arc::new(Mutex::new(HashMap::new())),
    };
    let r = vox::acceptor_on(StreamLink::new(reader, writer))
        .on_lane(StyxLspExtensionDispatcher::new(imp))
        .establish::<StyxLspHostClient>()
        .await;
    match r {
        Ok(c) => {
            let _ = cell.set(c);
            std::future::pending::<()>().await
        }
        Err(e) => {
            if proc.alive() {
                emit(json!({"e": "ext_handshake_failed", "pid": proc.pid, "why": e.to_string()}));
            }
            std::future::pending::<()>().await
        }
    }
}

fn garbage(rng: &Rng) -> Vec<u8> {
    let mut r = rng.clone();
    let n = r.range(1, 200);
    let mut v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if r.chance(50) {
        // A plausible length prefix in front.
        let len = (r.range(0, 64) as u32).to_le_bytes();
        v.splice(0..0, len);
    }
    // The RPC library reserves the announced length; the address space is limited here
    v.resize(v.len().max(4), 0);
    v[3] &= 0x0f;
    v
}

#[derive(Clone)]
struct Ext {
    proc: Arc<Proc>,
    b: Arc<J>,
    rng: Arc<Mutex<Rng>>,
    host: Arc<OnceLock<StyxLspHostClient>>,
    uris: Arc<J>,
    src: Arc<Mutex<HashMap<String, usize>>>,
}

pub fn h<T: std::fmt::Debug>(v: &T) -> String {
    format!("{:016x}", fnv(format!("{v:?}").as_bytes()))
}

impl Ext {
    fn r<T>(&self, f: impl FnOnce(&mut Rng) -> T) -> T {
        f(&mut self.rng.lock().unwrap())
    }

    /// Everything that happens between receiving a call and replying to it.
    async fn call(&self, name: &str, p: J) {
        let n = {
            let mut s = self.proc.state.lock().unwrap();
            s.calls += 1;
            s.calls
        };
        if !self.proc.alive() {
            return std::future::pending().await;
        }
        let b = &*self.b;
        emit(json!({"e": "ext", "pid": self.proc.pid, "id": n, "call": name, "p": p}));
        let after = |k: &str| b[k].as_u64().is_some_and(|x| n >= x);
        if after("die_after") && b["die_when"].as_str() != Some("late") {
            self.proc.exit(256 * 3, false);
            return std::future::pending().await;
        }
        if after("garbage_after") {
            let g = self.r(|r| garbage(r));
            emit(json!({"e": "garbage", "pid": self.proc.pid}));
            self.proc.stdout.push(&g);
        }
        if after("stall_after") {
            emit(json!({"e": "stall", "pid": self.proc.pid}));
            self.proc.state.lock().unwrap().stalled = true;
            self.proc.stdin.freeze(true);
            self.proc.stdout.freeze(true);
        }
        if name == "initialize" {
            match b["init"].as_str().unwrap_or("ok") {
                "never" => return std::future::pending().await,
                "exit" => {
                    self.proc.exit(256, false);
                    return std::future::pending().await;
                }
                _ => {}
            }
            ms(num(b, "init_ms")).await;
        } else {
            if self.r(|r| r.chance(num(b, "never") as usize)) {
                emit(json!({"e": "ext_never", "pid": self.proc.pid, "id": n}));
                return std::future::pending().await;
            }
            let d = &b["delay"];
            let (lo, hi) = (d[0].as_u64().unwrap_or(0), d[1].as_u64().unwrap_or(0));
            let t = self.r(|r| if hi == 0 { 0 } else { r.range(lo as usize, hi as usize) as u64 });
            let before = self.r(|r| r.chance(50));
            if before {
                self.questions(n).await;
            }
            ms(t).await;
            if !before {
                self.questions(n).await;
            }
        }
        if !self.proc.alive() {
            return std::future::pending().await;
        }
        emit(json!({"e": "ext_reply", "pid": self.proc.pid, "id": n}));
        if after("die_after") {
            // The reply has been produced, but only part of it may get out.
            let p = self.proc.clone();
            tokio::spawn(async move {
                tokio::task::yield_now().await;
                p.exit(256 * 3, false);
            });
        } else if self.r(|r| r.chance(num(b, "idle") as usize)) {
            // Questions while nothing has been asked of it.
            let (e, t) = (self.clone(), self.r(|r| *r.pick(&[0u64, 0, 1, 30, 700])));
            tokio::spawn(async move {
                ms(t).await;
                if e.proc.alive() {
                    e.questions(n).await;
                }
            });
        }
    }

    /// What it was told about a value, in a form that can be compared.
    fn v(&self, v: &styx_tree::Value) -> J {
        if self.b["outlines"].as_bool() == Some(true) { crate::oracle::outline(v, "") } else { json!(h(v)) }
    }

    /// A place in another document, if it knows any.
    fn elsewhere(&self, k: u64, uri: &str, s: styx_tree::Span) -> (String, styx_tree::Span) {
        match self.b["others"].as_array() {
            Some(o) if !o.is_empty() && (k >> 3) % 3 != 0 => {
                let a = (k >> 8) as u32 % 48;
                (o[(k >> 24) as usize % o.len()].as_str().unwrap().to_string(), span(a, a + (k >> 16) as u32 % 9))
            }
            _ => (uri.to_string(), s),
        }
    }

    /// What it answers with spans.
    fn gave(&self, what: &str, uri: &str, key: &str, spans: Vec<styx_tree::Span>) {
        if self.b["outlines"].as_bool() == Some(true) {
            let s: Vec<J> = spans.iter().map(|s| json!([s.start, s.end])).collect();
            emit(json!({"e": "ext_gave", "pid": self.proc.pid, "what": what, "uri": uri, "key": key, "spans": s}));
        }
    }

    /// Ask the server something while the call is in flight.
    async fn questions(&self, id: u64) {
        let pct = num(&self.b, "callbacks") as usize;
        if pct == 0 {
            return;
        }
        let Some(host) = self.host.get().cloned() else { return };
        let n = self.r(|r| if r.chance(pct) { r.range(1, 4) } else { 0 });
        for _ in 0..n {
            if !self.proc.alive() {
                return;
            }
            let uris = self.uris.as_array().cloned().unwrap_or_default();
            let uri = self.r(|r| {
                if uris.is_empty() || r.chance(8) {
                    r.pick(&["file:///nowhere.styx", "not a uri", "", "file:///a%zz"]).to_string()
                } else {
                    r.pick(&uris).as_str().unwrap_or("").to_string()
                }
            });
            let known = self.src.lock().unwrap().get(&uri).copied().unwrap_or(30);
            let kind = self.r(|r| r.below(7));
            let off = self.r(|r| if r.chance(6) { *r.pick(&[u32::MAX, 1 << 31, 100_000]) } else { r.below(known + 4) as u32 });
            let (l, c) = self.r(|r| if r.chance(6) { (u32::MAX, r.below(9) as u32) } else if r.chance(6) { (r.below(4) as u32, u32::MAX) } else { (r.below(2 + known / 10) as u32, r.below(30) as u32) });
            let mut path: Vec<String> = self.r(|r| (0..r.below(3)).map(|_| r.pick(&["server", "name", "port", "tls", "nested", "0", "", "größe", "users", "limits", "host", "数据", "x", "emoji🎉"]).to_string()).collect());
            if let Some(last) = path.last_mut()
                && self.r(|r| r.chance(15))
            {
                // Close to a key, but another one.
                *last = if off % 2 == 0 { last.to_uppercase() } else { format!("{last} ") };
            }
            let q = match kind {
                0 => json!({"k": "source", "uri": uri}),
                1 => json!({"k": "document", "uri": uri}),
                2 => json!({"k": "subtree", "uri": uri, "path": path}),
                3 => json!({"k": "schema", "uri": uri}),
                4 | 5 => json!({"k": "o2p", "uri": uri, "offset": off}),
                _ => json!({"k": "p2o", "uri": uri, "line": l, "character": c}),
            };
            let qn = crate::next_seq();
            emit(json!({"e": "host", "pid": self.proc.pid, "id": id, "q": qn, "what": q}));
            let u = uri.clone();
            let a: Result<J, String> = match kind {
                0 => host.get_source(ext::GetSourceParams { document_uri: u }).await.map(|x| {
                    if let Some(s) = &x {
                        self.src.lock().unwrap().insert(uri.clone(), s.len());
                    }
                    json!(x)
                }).map_err(|e| format!("{e:?}")),
                1 => host.get_document(ext::GetDocumentParams { document_uri: u }).await.map(|x| json!(x.map(|v| h(&v)))).map_err(|e| format!("{e:?}")),
                2 => host.get_subtree(ext::GetSubtreeParams { document_uri: u, path }).await.map(|x| json!(x.map(|v| h(&v)))).map_err(|e| format!("{e:?}")),
                3 => host.get_schema(ext::GetSchemaParams { document_uri: u }).await.map(|x| json!(x.map(|v| json!({"source": v.source, "uri": v.uri})))).map_err(|e| format!("{e:?}")),
                4 | 5 => host.offset_to_position(ext::OffsetToPositionParams { document_uri: u, offset: off }).await.map(|x| json!(x.map(|p| json!([p.line, p.character])))).map_err(|e| format!("{e:?}")),
                _ => host.position_to_offset(ext::PositionToOffsetParams { document_uri: u, position: ext::Position { line: l, character: c } }).await.map(|x| json!(x)).map_err(|e| format!("{e:?}")),
            };
            match a {
                Ok(a) => emit(json!({"e": "host_reply", "pid": self.proc.pid, "q": qn, "a": a})),
                Err(e) => emit(json!({"e": "host_error", "pid": self.proc.pid, "q": qn, "why": e})),
            }
        }
    }

    fn hostile(&self, key: u64) -> bool {
        key % 100 < num(&self.b, "hostile")
    }
}

fn cur(c: &ext::Cursor) -> J {
    json!([c.line, c.character, c.offset])
}

fn span(a: u32, b: u32) -> styx_tree::Span {
    styx_tree::Span { start: a, end: b }
}

impl StyxLspExtension for Ext {
    async fn initialize(&self, p: ext::InitializeParams) -> ext::InitializeResult {
        self.call("initialize", json!({"uri": p.document_uri, "schema_id": p.schema_id})).await;
        ext::InitializeResult {
            name: "sim".into(),
            version: "1".into(),
            capabilities: vec![
                ext::Capability::Completions,
                ext::Capability::Hover,
                ext::Capability::InlayHints,
                ext::Capability::Diagnostics,
                ext::Capability::CodeActions,
                ext::Capability::Definition,
            ],
        }
    }
    async fn completions(&self, p: ext::CompletionParams) -> Vec<ext::CompletionItem> {
        self.call("completions", json!({"uri": p.document_uri, "cursor": cur(&p.cursor), "path": p.path, "prefix": p.prefix,
            "context": p.context.as_ref().map(|v| self.v(v)), "tagged": p.tagged_context.as_ref().map(|v| self.v(v))})).await;
        let k = fnv(format!("{p:?}").as_bytes());
        (0..k % 3)
            .map(|i| ext::CompletionItem {
                label: format!("ext{i}_{k:x}"),
                detail: Some(p.path.join(".")),
                documentation: None,
                kind: Some(ext::CompletionKind::Value),
                sort_text: None,
                insert_text: (i == 1).then(|| format!("ins{k:x}")),
            })
            .collect()
    }
    async fn hover(&self, p: ext::HoverParams) -> Option<ext::HoverResult> {
        self.call("hover", json!({"uri": p.document_uri, "cursor": cur(&p.cursor), "path": p.path,
            "context": p.context.as_ref().map(|v| self.v(v)), "tagged": p.tagged_context.as_ref().map(|v| self.v(v))})).await;
        let k = fnv(format!("{p:?}").as_bytes());
        if k % 4 == 0 {
            return None;
        }
        let range = (k % 4 == 1).then_some(ext::Range {
            start: ext::Position { line: p.cursor.line, character: p.cursor.character },
            end: ext::Position { line: p.cursor.line, character: p.cursor.character },
        });
        Some(ext::HoverResult { contents: format!("EXT {} {k:x}", p.path.join(".")), range })
    }
    async fn inlay_hints(&self, p: ext::InlayHintParams) -> Vec<ext::InlayHint> {
        self.call("inlay_hints", json!({"uri": p.document_uri, "tree": p.context.as_ref().map(h),
            "range": [p.range.start.line, p.range.start.character, p.range.end.line, p.range.end.character]})).await;
        let k = fnv(format!("{p:?}").as_bytes());
        if k % 3 == 0 {
            return vec![];
        }
        vec![ext::InlayHint {
            position: p.range.start,
            label: format!("hint {k:x}"),
            kind: Some(ext::InlayHintKind::Type),
            padding_left: true,
            padding_right: false,
        }]
    }
    async fn diagnostics(&self, p: ext::DiagnosticParams) -> Vec<ext::Diagnostic> {
        self.call("diagnostics", json!({"uri": p.document_uri, "tree": h(&p.tree), "content": p.content})).await;
        self.src.lock().unwrap().insert(p.document_uri.clone(), p.content.len());
        let k = fnv(format!("{p:?}").as_bytes());
        let len = p.content.len() as u32;
        let s = if self.hostile(k) {
            match (k / 100) % 4 {
                0 => span(len + 7, u32::MAX),
                1 => span(len, 0),
                2 => span((k as u32) % (len + 3), (k >> 32) as u32 % (len + 3)),
                _ => span(u32::MAX, u32::MAX),
            }
        } else {
            let at = |x: u64| {
                let n = p.content.chars().count() as u64 + 1;
                p.content.char_indices().nth((x % n) as usize).map_or(p.content.len(), |x| x.0) as u32
            };
            let (a, b) = (at(k >> 8), at(k >> 24));
            span(a.min(b), a.max(b))
        };
        self.gave("diagnostics", &p.document_uri, &format!("ext {k:x}"), vec![s]);
        vec![ext::Diagnostic {
            span: s,
            severity: ext::DiagnosticSeverity::Warning,
            message: format!("ext {k:x}"),
            source: Some("sim-ext".into()),
            code: (k % 2 == 0).then(|| "E1".into()),
            data: None,
        }]
    }
    async fn code_actions(&self, p: ext::CodeActionParams) -> Vec<ext::CodeAction> {
        self.call("code_actions", json!({"uri": p.document_uri, "span": [p.span.start, p.span.end],
            "diags": p.diagnostics.iter().map(|d| json!([d.span.start, d.span.end, format!("{:?}", d.severity), d.message, d.source, d.code])).collect::<Vec<_>>()})).await;
        let k = fnv(format!("{p:?}").as_bytes());
        let s = if self.hostile(k) { span((k >> 8) as u32, (k >> 40) as u32) } else { span(p.span.start, p.span.end) };
        let (target, s) = self.elsewhere(k, &p.document_uri, s);
        self.gave("code_actions", &target, &format!("ext action {k:x}"), vec![s]);
        vec![ext::CodeAction {
            title: format!("ext action {k:x}"),
            kind: Some(ext::CodeActionKind::Refactor),
            edit: (k % 2 == 0).then(|| ext::WorkspaceEdit {
                changes: vec![ext::DocumentEdit {
                    uri: target,
                    edits: vec![ext::TextEdit { span: s, new_text: "x".into() }],
                }],
            }),
            is_preferred: false,
        }]
    }
    async fn definition(&self, p: ext::DefinitionParams) -> Vec<ext::Location> {
        self.call("definition", json!({"uri": p.document_uri, "cursor": cur(&p.cursor), "path": p.path,
            "context": p.context.as_ref().map(|v| self.v(v)), "tagged": p.tagged_context.as_ref().map(|v| self.v(v))})).await;
        let k = fnv(format!("{p:?}").as_bytes());
        let s = if self.hostile(k) { span((k >> 8) as u32, (k >> 40) as u32) } else { span(p.cursor.offset, p.cursor.offset) };
        let found: Vec<_> = (0..k % 3)
            .map(|i| {
                let (uri, span) = self.elsewhere(k.rotate_left(7 * i as u32), &p.document_uri, s);
                ext::Location { uri, span }
            })
            .collect();
        if self.b["outlines"].as_bool() == Some(true) {
            let l: Vec<J> = found.iter().map(|l| json!([l.uri, l.span.start, l.span.end])).collect();
            emit(json!({"e": "ext_gave", "pid": self.proc.pid, "what": "definition", "asked": p.document_uri, "cursor": [p.cursor.line, p.cursor.character], "found": l}));
        }
        found
    }
    async fn shutdown(&self) {
        self.call("shutdown", J::Null).await;
        if self.b["stubborn"].as_bool() != Some(true) {
            let p = self.proc.clone();
            tokio::spawn(async move {
                ms(1).await;
                p.exit(0, false);
            });
        }
    }
}

pub fn table(procs: &Mutex<Vec<Arc<Proc>>>) -> J {
    let _ = now_ms();
    procs
        .lock()
        .unwrap()
        .iter()
        .map(|p| {
            let s = p.state.lock().unwrap();
            json!({"pid": p.pid, "program": p.program, "killed": s.killed, "exited": s.exited.is_some(),
                   "stubborn": s.stubborn || s.stalled, "stdin_closed": p.stdin.write_closed(), "calls": s.calls})
        })
        .collect()
}
