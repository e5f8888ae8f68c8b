From 227616b159286cd2718ead166b5081223fa9c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:15 +0000
Subject: [PATCH 01/26] sim: simulation seam for stdio and extension processes
 (cfg styx_sim, off by default)

---
 crates/styx-lsp/src/extensions.rs |   3 +
 crates/styx-lsp/src/lib.rs        |   5 +
 crates/styx-lsp/src/server.rs     |   7 +-
 crates/styx-lsp/src/sim.rs        | 204 ++++++++++++++++++++++++++++++
 4 files changed, 217 insertions(+), 2 deletions(-)
 create mode 100644 crates/styx-lsp/src/sim.rs

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..c6da86d 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -31,6 +31,7 @@ use styx_lsp_ext::{
 };
 use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+#[cfg(not(styx_sim))]
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
 use tokio::sync::RwLock;
 use tower_lsp::lsp_types::Url;
@@ -40,6 +41,8 @@ use vox_stream::StreamLink;
 use crate::config::{self, StyxUserConfig};
 use crate::schema_validation::resolve_schema;
 use crate::server::DocumentMap;
+#[cfg(styx_sim)]
+use crate::sim::process::{Child, ChildStdin, ChildStdout, Command};
 
 /// A duplex stream combining a child process's stdin and stdout.
 ///
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 12db026..45f044c 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -8,6 +8,9 @@
 //! - Hover information (type info from schema)
 //! - Schema suggestions for known file patterns
 
+// `styx_sim` is set only by simulation builds (`RUSTFLAGS="--cfg styx_sim"`).
+#![allow(unexpected_cfgs)]
+
 pub mod cache;
 pub mod config;
 pub mod extensions;
@@ -15,6 +18,8 @@ pub mod schema_hints;
 mod schema_validation;
 pub mod semantic_tokens;
 mod server;
+#[cfg(styx_sim)]
+pub mod sim;
 pub mod testing;
 
 pub use semantic_tokens::{HighlightSpan, TokenType, compute_highlight_spans};
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..6e46bb1 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3377,6 +3377,7 @@ fn generate_reorder_edit(
 /// Run the LSP server on stdin/stdout
 pub async fn run() -> eyre::Result<()> {
     // Set up logging (no ANSI colors since output goes to stderr for LSP)
+    #[cfg(not(styx_sim))]
     tracing_subscriber::fmt()
         .with_ansi(false)
         .with_env_filter(
@@ -3391,8 +3392,10 @@ pub async fn run() -> eyre::Result<()> {
         std::process::id()
     );
 
-    let stdin = tokio::io::stdin();
-    let stdout = tokio::io::stdout();
+    #[cfg(not(styx_sim))]
+    let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
+    #[cfg(styx_sim)]
+    let (stdin, stdout) = crate::sim::stdio();
 
     let (service, socket) = LspService::new(StyxLanguageServer::new);
     Server::new(stdin, stdout, socket).serve(service).await;
diff --git a/crates/styx-lsp/src/sim.rs b/crates/styx-lsp/src/sim.rs
new file mode 100644
index 0000000..20787b0
--- /dev/null
+++ b/crates/styx-lsp/src/sim.rs
@@ -0,0 +1,204 @@
+//! Simulation seam. Only compiled with `--cfg styx_sim`, never in a shipped build.
+//!
+//! A deterministic simulator installs a [`Host`] on its thread; the server then takes its
+//! standard streams and its extension processes from that host instead of from the
+//! operating system. [`process`] mirrors the part of `tokio::process` the server uses.
+
+use std::cell::RefCell;
+use std::io;
+use std::pin::Pin;
+use std::rc::Rc;
+use std::task::{Context, Poll};
+
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+
+/// A readable byte stream owned by the simulator.
+pub struct BoxRead(pub Box<dyn AsyncRead + Send + Sync + Unpin>);
+/// A writable byte stream owned by the simulator.
+pub struct BoxWrite(pub Box<dyn AsyncWrite + Send + Sync + Unpin>);
+
+impl AsyncRead for BoxRead {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_read(cx, buf)
+    }
+}
+
+impl AsyncWrite for BoxWrite {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.0).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_shutdown(cx)
+    }
+}
+
+/// What the simulator provides in place of the operating system.
+pub trait Host {
+    /// The server's standard input and output.
+    fn stdio(&self) -> (BoxRead, BoxWrite);
+    /// Start a process.
+    fn spawn(&self, command: &process::Command) -> io::Result<process::Child>;
+}
+
+thread_local! {
+    static HOST: RefCell<Option<Rc<dyn Host>>> = const { RefCell::new(None) };
+}
+
+/// Install the host for servers run on this thread.
+pub fn install(host: Option<Rc<dyn Host>>) {
+    HOST.with(|h| *h.borrow_mut() = host);
+}
+
+fn host() -> Rc<dyn Host> {
+    HOST.with(|h| h.borrow().clone())
+        .expect("no simulation host installed on this thread")
+}
+
+/// The server's standard streams.
+pub fn stdio() -> (BoxRead, BoxWrite) {
+    host().stdio()
+}
+
+/// Stand-in for `tokio::process`.
+pub mod process {
+    use super::*;
+    use std::ffi::{OsStr, OsString};
+    use std::future::Future;
+    use std::path::{Path, PathBuf};
+    use std::process::{ExitStatus, Stdio};
+    use std::sync::Arc;
+
+    pub type ChildStdin = BoxWrite;
+    pub type ChildStdout = BoxRead;
+    pub type ChildStderr = BoxRead;
+
+    /// Future returned by [`Control::wait`].
+    pub type WaitFuture = Pin<Box<dyn Future<Output = io::Result<ExitStatus>> + Send>>;
+
+    /// The simulator's handle on one simulated process.
+    pub trait Control: Send + Sync {
+        fn id(&self) -> u32;
+        fn kill(&self) -> io::Result<()>;
+        fn try_wait(&self) -> io::Result<Option<ExitStatus>>;
+        fn wait(&self) -> WaitFuture;
+    }
+
+    /// A command to be started by the simulator.
+    #[derive(Debug, Default)]
+    pub struct Command {
+        pub program: OsString,
+        pub args: Vec<OsString>,
+        pub envs: Vec<(OsString, OsString)>,
+        pub cwd: Option<PathBuf>,
+        pub kill_on_drop: bool,
+    }
+
+    impl Command {
+        pub fn new(program: impl AsRef<OsStr>) -> Self {
+            Self {
+                program: program.as_ref().to_owned(),
+                ..Self::default()
+            }
+        }
+        pub fn arg(&mut self, arg: impl AsRef<OsStr>) -> &mut Self {
+            self.args.push(arg.as_ref().to_owned());
+            self
+        }
+        pub fn args<S: AsRef<OsStr>>(&mut self, args: impl IntoIterator<Item = S>) -> &mut Self {
+            for arg in args {
+                self.arg(arg);
+            }
+            self
+        }
+        pub fn env(&mut self, key: impl AsRef<OsStr>, value: impl AsRef<OsStr>) -> &mut Self {
+            self.envs
+                .push((key.as_ref().to_owned(), value.as_ref().to_owned()));
+            self
+        }
+        pub fn current_dir(&mut self, dir: impl AsRef<Path>) -> &mut Self {
+            self.cwd = Some(dir.as_ref().to_owned());
+            self
+        }
+        pub fn stdin(&mut self, _: impl Into<Stdio>) -> &mut Self {
+            self
+        }
+        pub fn stdout(&mut self, _: impl Into<Stdio>) -> &mut Self {
+            self
+        }
+        pub fn stderr(&mut self, _: impl Into<Stdio>) -> &mut Self {
+            self
+        }
+        pub fn kill_on_drop(&mut self, kill: bool) -> &mut Self {
+            self.kill_on_drop = kill;
+            self
+        }
+        pub fn spawn(&mut self) -> io::Result<Child> {
+            let mut child = host().spawn(self)?;
+            child.kill_on_drop = self.kill_on_drop;
+            Ok(child)
+        }
+    }
+
+    /// A simulated child process.
+    pub struct Child {
+        pub stdin: Option<ChildStdin>,
+        pub stdout: Option<ChildStdout>,
+        pub stderr: Option<ChildStderr>,
+        control: Arc<dyn Control>,
+        kill_on_drop: bool,
+    }
+
+    impl Child {
+        pub fn simulated(
+            stdin: ChildStdin,
+            stdout: ChildStdout,
+            control: Arc<dyn Control>,
+        ) -> Self {
+            Self {
+                stdin: Some(stdin),
+                stdout: Some(stdout),
+                stderr: None,
+                control,
+                kill_on_drop: false,
+            }
+        }
+        pub fn id(&self) -> Option<u32> {
+            Some(self.control.id())
+        }
+        pub fn start_kill(&mut self) -> io::Result<()> {
+            self.control.kill()
+        }
+        pub async fn kill(&mut self) -> io::Result<()> {
+            self.start_kill()?;
+            self.wait().await.map(|_| ())
+        }
+        pub async fn wait(&mut self) -> io::Result<ExitStatus> {
+            drop(self.stdin.take());
+            self.control.wait().await
+        }
+        pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
+            self.control.try_wait()
+        }
+    }
+
+    impl Drop for Child {
+        fn drop(&mut self) {
+            if self.kill_on_drop {
+                let _ = self.control.kill();
+            }
+        }
+    }
+}
-- 
2.43.0


From fba4a4a53439c6ed96127cab664be5369775af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 02/26] fix: replace files atomically when the command-line
 tool rewrites them

In-place formatting, -o, --json-out and package truncated the target and
then wrote it, so a crash, a full disk or an I/O error destroyed the only
copy of the document.
---
 crates/styx-cli/src/main.rs        |  8 +--
 crates/styx-lsp/src/atomic_file.rs | 89 ++++++++++++++++++++++++++++++
 crates/styx-lsp/src/lib.rs         |  1 +
 3 files changed, 94 insertions(+), 4 deletions(-)
 create mode 100644 crates/styx-lsp/src/atomic_file.rs

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..e35f16d 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -20,7 +20,7 @@ use facet::Facet;
 use facet_styx::{SchemaFile, validate};
 use figue as args;
 use styx_format::{FormatOptions, format_source};
-use styx_lsp::{TokenType, compute_highlight_spans};
+use styx_lsp::{TokenType, atomic_file, compute_highlight_spans};
 use styx_parse::{Lexer, Parser};
 use styx_tokenizer::Tokenizer;
 use styx_tree::{Payload, Value};
@@ -395,7 +395,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         let output = format_source(&source, format_opts);
 
         if opts.in_place {
-            std::fs::write(&opts.input, &output)?;
+            atomic_file::write(&opts.input, &output)?;
         } else if let Some(ref out_path) = opts.output {
             write_output(out_path, &output)?;
         } else {
@@ -998,7 +998,7 @@ fn write_output(path: &str, content: &str) -> Result<(), io::Error> {
         print!("{content}");
         Ok(())
     } else {
-        std::fs::write(path, content)
+        atomic_file::write(path, content)
     }
 }
 
@@ -1427,7 +1427,7 @@ fn run_package(
     let readme = generate_readme(name);
     std::fs::write(output_path.join("README.md"), readme)?;
 
-    std::fs::write(output_path.join("schema.styx"), &schema_content)?;
+    atomic_file::write(output_path.join("schema.styx"), &schema_content)?;
 
     eprintln!("Created crate in {output_dir}/");
     eprintln!();
diff --git a/crates/styx-lsp/src/atomic_file.rs b/crates/styx-lsp/src/atomic_file.rs
new file mode 100644
index 0000000..ea97e9b
--- /dev/null
+++ b/crates/styx-lsp/src/atomic_file.rs
@@ -0,0 +1,89 @@
+//! Replacing the contents of a file all at once.
+
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+
+/// Write `contents` to the file at `path`, creating it or replacing what it held.
+///
+/// The new contents are written to a temporary file next to the target and put in its place only
+/// when they are complete and on stable storage. If anything fails, or the process or machine dies,
+/// the file holds what it held before. Symbolic links are followed, so a link keeps pointing at the
+/// file that is replaced, and the file keeps its permissions. Anything that is not a regular file
+/// (a device, a pipe) is written to directly.
+pub fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> io::Result<()> {
+    let contents = contents.as_ref();
+    let target = follow_links(path.as_ref())?;
+
+    let existing = match fs::metadata(&target) {
+        Ok(meta) if !meta.is_file() => return fs::write(&target, contents),
+        Ok(meta) => {
+            // Replacing a file needs no permission to write to it; changing its contents does.
+            OpenOptions::new().write(true).open(&target)?;
+            Some(meta)
+        }
+        Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+        Err(e) => return Err(e),
+    };
+
+    let dir = match target.parent() {
+        Some(dir) if !dir.as_os_str().is_empty() => dir,
+        _ => Path::new("."),
+    };
+    let (temp_path, temp) = create_temp(dir)?;
+    let result =
+        fill(temp, contents, existing.as_ref()).and_then(|()| fs::rename(&temp_path, &target));
+    if let Err(e) = result {
+        let _ = fs::remove_file(&temp_path);
+        return Err(e);
+    }
+    sync_dir(dir)
+}
+
+fn follow_links(path: &Path) -> io::Result<PathBuf> {
+    let mut target = path.to_path_buf();
+    for _ in 0..40 {
+        match fs::read_link(&target) {
+            Ok(link) => target = target.parent().unwrap_or(Path::new("")).join(link),
+            Err(_) => return Ok(target),
+        }
+    }
+    Err(io::Error::other("too many levels of symbolic links"))
+}
+
+fn create_temp(dir: &Path) -> io::Result<(PathBuf, File)> {
+    let mut n = 0;
+    loop {
+        let path = dir.join(format!(".styx-{}-{n}.tmp", std::process::id()));
+        match OpenOptions::new().write(true).create_new(true).open(&path) {
+            Ok(file) => return Ok((path, file)),
+            // Left behind by a process that died, or in use by another thread.
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists && n < 1000 => n += 1,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
+fn fill(mut file: File, contents: &[u8], existing: Option<&fs::Metadata>) -> io::Result<()> {
+    if let Some(meta) = existing {
+        #[cfg(unix)]
+        {
+            use std::os::unix::fs::{MetadataExt, fchown};
+            // Only a privileged user can give files away; others keep theirs.
+            let _ = fchown(&file, Some(meta.uid()), Some(meta.gid()));
+        }
+        file.set_permissions(meta.permissions())?;
+    }
+    file.write_all(contents)?;
+    file.sync_all()
+}
+
+#[cfg(unix)]
+fn sync_dir(dir: &Path) -> io::Result<()> {
+    File::open(dir)?.sync_all()
+}
+
+#[cfg(not(unix))]
+fn sync_dir(_dir: &Path) -> io::Result<()> {
+    Ok(())
+}
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 45f044c..467bc74 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -11,6 +11,7 @@
 // `styx_sim` is set only by simulation builds (`RUSTFLAGS="--cfg styx_sim"`).
 #![allow(unexpected_cfgs)]
 
+pub mod atomic_file;
 pub mod cache;
 pub mod config;
 pub mod extensions;
-- 
2.43.0


From 5db7a884c418d9da697c859b049ba51ffb9b8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 03/26] fix: report output that could not be delivered instead
 of panicking or ignoring it

print!/println! panic on a closed or full standard output (exit 101), and
an error that surfaced only when the last, unterminated line was flushed at
exit was lost (exit 0 with truncated output).
---
 crates/styx-cli/src/main.rs | 62 ++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index e35f16d..671f40b 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -25,6 +25,42 @@ use styx_parse::{Lexer, Parser};
 use styx_tokenizer::Tokenizer;
 use styx_tree::{Payload, Value};
 
+// ============================================================================
+// Standard output
+// ============================================================================
+
+/// The first error met while writing to standard output.
+static STDOUT_ERROR: std::sync::Mutex<Option<io::Error>> = std::sync::Mutex::new(None);
+
+/// Write to standard output, remembering a failure for [`finish_stdout`].
+fn write_stdout(args: std::fmt::Arguments<'_>) {
+    use std::io::Write;
+    let mut error = STDOUT_ERROR.lock().unwrap();
+    if error.is_none() {
+        *error = io::stdout().write_fmt(args).err();
+    }
+}
+
+/// Deliver what is still buffered and report whether all output was accepted.
+fn finish_stdout() -> Result<(), CliError> {
+    use std::io::Write;
+    match STDOUT_ERROR.lock().unwrap().take() {
+        Some(e) => Err(e),
+        None => io::stdout().flush(),
+    }
+    .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("standard output: {e}"))))
+}
+
+// The standard macros panic when the output is closed or full, and ignore
+// errors that surface only when the last line is flushed at exit.
+macro_rules! print {
+    ($($arg:tt)*) => { write_stdout(format_args!($($arg)*)) };
+}
+macro_rules! println {
+    () => { write_stdout(format_args!("\n")) };
+    ($($arg:tt)*) => { write_stdout(format_args!("{}\n", format_args!($($arg)*))) };
+}
+
 // ============================================================================
 // Exit codes
 // ============================================================================
@@ -249,7 +285,7 @@ fn main() {
     // Handle --version / -V at top level
     if raw_args[0] == "--version" || raw_args[0] == "-V" {
         println!("styx {VERSION}");
-        std::process::exit(EXIT_SUCCESS);
+        exit_with(Ok(()));
     }
 
     // Handle --help / -h at top level
@@ -267,7 +303,11 @@ fn main() {
         run_subcommand_mode(&raw_args)
     };
 
-    match result {
+    exit_with(result);
+}
+
+fn exit_with(result: Result<(), CliError>) -> ! {
+    match finish_stdout().and(result) {
         Ok(()) => std::process::exit(EXIT_SUCCESS),
         Err(e) => {
             match &e {
@@ -326,9 +366,23 @@ fn print_help() {
     eprintln!("    styx completions bash           Generate bash completions");
 }
 
+fn parse_args<T: Facet<'static>>(args: &[&str]) -> T {
+    match figue::from_slice::<T>(args).into_result() {
+        Ok(output) => output.get(),
+        Err(args::DriverError::Help { text, suggestion }) => {
+            println!("{text}");
+            if let Some(suggestion) = suggestion {
+                println!("{}", suggestion.render_pretty());
+            }
+            exit_with(Ok(()))
+        }
+        Err(e) => args::DriverOutcome::err(e).unwrap(),
+    }
+}
+
 fn run_file_mode(args: &[String]) -> Result<(), CliError> {
     let args_strs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
-    let opts: FileArgs = figue::from_slice(&args_strs).unwrap();
+    let opts: FileArgs = parse_args(&args_strs);
 
     // Validate option combinations
     if opts.in_place && opts.input == "-" {
@@ -408,7 +462,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
 
 fn run_subcommand_mode(args: &[String]) -> Result<(), CliError> {
     let args_strs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
-    let parsed: Args = figue::from_slice(&args_strs).unwrap();
+    let parsed: Args = parse_args(&args_strs);
 
     match parsed.command {
         Some(Command::Lsp) => run_lsp(),
-- 
2.43.0


From b8fe5c7c5c24b5209681bb6d6f74a5a6becaf7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 04/26] fix: an unreadable schema binary is an I/O error, not a
 validation failure

---
 crates/styx-cli/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 671f40b..7bc69bd 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -965,6 +965,12 @@ fn extract_embedded_schema(
     })?;
 
     let schemas = styx_embed::extract_schemas_from_file(&binary_path).map_err(|e| {
+        if let Some(io_error) = e.downcast_ref::<io::Error>() {
+            return CliError::Io(io::Error::new(
+                io_error.kind(),
+                format!("{}: {io_error}", binary_path.display()),
+            ));
+        }
         CliError::Validation(format!(
             "failed to extract schema from '{}': {}\nhint: the binary may not have embedded schemas",
             binary_path.display(),
-- 
2.43.0


From e4b7e63ac8855f66f98e4be840f9c1eb26f64e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 05/26] fix: damaged embedded schemas neither exhaust memory
 nor hide intact ones

A corrupted length field made extraction allocate up to 4 GB and abort; an
overflowing section range panicked; one damaged schema in a legacy blob or a
damaged section table hid the intact ones.
---
 crates/styx-embed/src/lib.rs | 106 +++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..3d215a9 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -211,18 +211,21 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     }
     let compressed = &data[pos..pos + compressed_len];
 
-    // Decompress
-    let decompressed = lz4_flex::decompress_size_prepended(compressed)
-        .map_err(|_| ExtractError::DecompressFailed)?;
+    decode_schema(compressed, decompressed_len, &expected_hash)
+}
 
-    // Verify length
-    if decompressed.len() != decompressed_len {
-        return Err(ExtractError::DecompressFailed);
-    }
+/// Decompress a schema and verify it against its header.
+fn decode_schema(
+    compressed: &[u8],
+    decompressed_len: usize,
+    expected_hash: &[u8; 32],
+) -> Result<String, ExtractError> {
+    // Decompress and verify length
+    let decompressed = decompress(compressed, decompressed_len)?;
 
     // Verify hash
     let actual_hash = blake3::hash(&decompressed);
-    if actual_hash.as_bytes() != &expected_hash {
+    if actual_hash.as_bytes() != expected_hash {
         return Err(ExtractError::HashMismatch);
     }
 
@@ -246,7 +249,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
     for _ in 0..count {
         // Read header: decompressed_len (4) + compressed_len (4) + hash (32) = 40 bytes
         if pos + 40 > data.len() {
-            return Err(ExtractError::Truncated);
+            break;
         }
 
         let decompressed_len =
@@ -264,34 +267,47 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
 
         // Read compressed data
         if pos + compressed_len > data.len() {
-            return Err(ExtractError::Truncated);
+            break;
         }
         let compressed = &data[pos..pos + compressed_len];
         pos += compressed_len;
 
-        // Decompress
-        let decompressed = lz4_flex::decompress_size_prepended(compressed)
-            .map_err(|_| ExtractError::DecompressFailed)?;
-
-        // Verify length
-        if decompressed.len() != decompressed_len {
-            return Err(ExtractError::DecompressFailed);
-        }
-
-        // Verify hash
-        let actual_hash = blake3::hash(&decompressed);
-        if actual_hash.as_bytes() != &expected_hash {
-            return Err(ExtractError::HashMismatch);
+        // A damaged schema does not take the others with it
+        if let Ok(schema) = decode_schema(compressed, decompressed_len, &expected_hash) {
+            schemas.push(schema);
         }
-
-        // Convert to string
-        let schema = String::from_utf8(decompressed).map_err(|_| ExtractError::InvalidUtf8)?;
-        schemas.push(schema);
     }
 
+    if schemas.is_empty() && count > 0 {
+        return Err(ExtractError::DecompressFailed);
+    }
     Ok(schemas)
 }
 
+/// Decompress a blob whose header announces `decompressed_len` bytes.
+///
+/// The length is checked against what the compressed data can possibly hold, so that
+/// damaged data does not decide how much memory is allocated.
+fn decompress(compressed: &[u8], decompressed_len: usize) -> Result<Vec<u8>, ExtractError> {
+    /// LZ4 expands one input byte to at most 255 output bytes.
+    const MAX_RATIO: usize = 255;
+
+    let (prefix, block) = compressed
+        .split_first_chunk::<4>()
+        .ok_or(ExtractError::Truncated)?;
+    if u32::from_le_bytes(*prefix) as usize != decompressed_len
+        || decompressed_len > block.len().saturating_mul(MAX_RATIO)
+    {
+        return Err(ExtractError::DecompressFailed);
+    }
+    let decompressed = lz4_flex::block::decompress(block, decompressed_len)
+        .map_err(|_| ExtractError::DecompressFailed)?;
+    if decompressed.len() != decompressed_len {
+        return Err(ExtractError::DecompressFailed);
+    }
+    Ok(decompressed)
+}
+
 /// Find the position of magic bytes in the data, starting from an offset.
 fn find_magic_from(data: &[u8], start: usize, magic: &[u8; 16]) -> Option<usize> {
     if start >= data.len() {
@@ -327,8 +343,11 @@ pub fn extract_schemas_from_object(data: &[u8]) -> Result<Vec<String>, ExtractEr
     if let Ok(object) = Object::parse(data)
         && let Some(section_data) = find_schema_section(&object, data)
     {
-        // Found the section - extract directly from it
-        return extract_schemas(section_data);
+        // Found the section - extract directly from it, unless a damaged section
+        // table points somewhere else
+        if let Ok(schemas) = extract_schemas(section_data) {
+            return Ok(schemas);
+        }
     }
 
     // Fall back to magic byte scanning for unknown formats or missing section
@@ -347,6 +366,11 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The `size` bytes at `start`, if the data has them.
+fn slice_at(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +379,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice_at(data, start, size) {
+                return Some(section);
             }
         }
     }
@@ -374,14 +398,12 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
             for arch in fat.iter_arches().flatten() {
                 let start = arch.offset as usize;
                 let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
-                    if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
+                if let Some(arch_data) = slice_at(data, start, size)
+                    && let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
-                        && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
-                    {
-                        return Some(section);
-                    }
+                    && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
+                {
+                    return Some(section);
                 }
             }
             None
@@ -404,8 +426,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(section) = slice_at(data, start, size) {
+                        return Some(section);
                     }
                 }
             }
@@ -422,8 +444,8 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         {
             let start = section.pointer_to_raw_data as usize;
             let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(section) = slice_at(data, start, size) {
+                return Some(section);
             }
         }
     }
-- 
2.43.0


From 32dcafb5ad121769e7ca9b6dc91bf71620ae09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 06/26] fix: the same input gives the same output whatever the
 hash seeds

---
 crates/facet-styx/src/schema_validate.rs | 36 ++++++++++++++++--------
 crates/styx-cli/src/main.rs              |  8 +++---
 crates/styx-gen-go/src/lib.rs            |  4 ++-
 crates/styx-gen-go/src/types.rs          | 19 +++++++------
 crates/styx-lsp/src/schema_hints.rs      |  6 ++--
 crates/styx-lsp/src/schema_validation.rs | 26 +++++++++--------
 6 files changed, 60 insertions(+), 39 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..895e7e9 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -455,7 +455,9 @@ impl<'a> Validator<'a> {
         let additional_schema = schema
             .0
             .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+            .filter(|(k, _)| k.value.tag.is_some())
+            .min_by_key(|(k, _)| k.value.tag.as_deref())
+            .map(|(_, v)| v);
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -493,11 +495,12 @@ impl<'a> Validator<'a> {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
+                let mut valid_fields: Vec<String> = schema
                     .0
                     .keys()
                     .filter_map(|k| k.value.name().map(|s| s.to_string()))
                     .collect();
+                valid_fields.sort();
 
                 // Try to find a similar field name (typo detection)
                 let suggestion = suggest_similar(key_display, &valid_fields).map(String::from);
@@ -517,13 +520,15 @@ impl<'a> Validator<'a> {
             }
         }
 
-        // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
-            // Skip catch-all fields (typed patterns like @string)
-            let Some(name) = field_name_doc.value.name() else {
-                continue;
-            };
-
+        // Check for missing required fields, in a fixed order.
+        // Catch-all fields (typed patterns like @string) have no name and are skipped.
+        let mut named_fields: Vec<(&str, &Schema)> = schema
+            .0
+            .iter()
+            .filter_map(|(k, v)| k.value.name().map(|name| (name, v)))
+            .collect();
+        named_fields.sort_by_key(|(name, _)| *name);
+        for (name, field_schema) in named_fields {
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required
                 if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
@@ -797,7 +802,8 @@ impl<'a> Validator<'a> {
             span: None,
         });
 
-        let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
+        let mut expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
+        expected_variants.sort();
 
         match schema.0.get(&Documented::new(tag.to_string())) {
             Some(variant_schema) => {
@@ -863,8 +869,14 @@ impl<'a> Validator<'a> {
         // Only scalars can fall back
         let text = value.scalar_text()?;
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
+        // Look for a variant whose schema matches this value, in a fixed order
+        let mut variants: Vec<(&str, &Schema)> = schema
+            .0
+            .iter()
+            .map(|(k, v)| (k.value.as_str(), v))
+            .collect();
+        variants.sort_by_key(|(name, _)| *name);
+        for (_, variant_schema) in variants {
             match variant_schema {
                 // @string accepts any scalar
                 Schema::String(_) => return Some(variant_schema),
diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 7bc69bd..3fb5fac 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1897,8 +1897,8 @@ fn compare_schemas(baseline: &Value, local: &Value) -> SchemaChanges {
     changes
 }
 
-fn extract_schema_map(value: &Value) -> std::collections::HashMap<Option<String>, &Value> {
-    let mut map = std::collections::HashMap::new();
+fn extract_schema_map(value: &Value) -> std::collections::BTreeMap<Option<String>, &Value> {
+    let mut map = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
@@ -1980,8 +1980,8 @@ fn compare_object_fields(
     }
 }
 
-fn extract_object_fields(value: &Value) -> std::collections::HashMap<String, &Value> {
-    let mut fields = std::collections::HashMap::new();
+fn extract_object_fields(value: &Value) -> std::collections::BTreeMap<String, &Value> {
+    let mut fields = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 9cc1eca..d0d3e68 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -16,7 +16,9 @@ pub fn generate(schema: &SchemaFile, package_name: &str, output_dir: &str) -> Re
     let mut mapper = TypeMapper::new();
 
     // Collect all type definitions from the schema
-    for (name_opt, schema_type) in &schema.schema {
+    let mut definitions: Vec<_> = schema.schema.iter().collect();
+    definitions.sort_by(|(a, _), (b, _)| a.cmp(b));
+    for (name_opt, schema_type) in definitions {
         let type_name = match name_opt {
             Some(name) => name.clone(),
             None => "Root".to_string(), // Root type gets default name
diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 8466740..92760e6 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -2,7 +2,7 @@
 
 use crate::error::GenError;
 use facet_styx::Schema;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A Go type representation.
 #[derive(Debug, Clone)]
@@ -63,13 +63,13 @@ pub struct EnumVariant {
 
 /// Maps Styx schema types to Go types.
 pub struct TypeMapper {
-    types: HashMap<String, GoType>,
+    types: BTreeMap<String, GoType>,
 }
 
 impl TypeMapper {
     pub fn new() -> Self {
         Self {
-            types: HashMap::new(),
+            types: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl TypeMapper {
     }
 
     /// Get all registered types.
-    pub fn types(&self) -> &HashMap<String, GoType> {
+    pub fn types(&self) -> &BTreeMap<String, GoType> {
         &self.types
     }
 
@@ -100,7 +100,9 @@ impl TypeMapper {
             Schema::Any => Ok(GoType::Primitive("interface{}".to_string())),
             Schema::Object(obj_schema) => {
                 let mut struct_fields = Vec::new();
-                for (documented_key, field_schema) in &obj_schema.0 {
+                let mut entries: Vec<_> = obj_schema.0.iter().collect();
+                entries.sort_by(|(a, _), (b, _)| a.value().value.cmp(&b.value().value));
+                for (documented_key, field_schema) in entries {
                     let key = documented_key.value();
                     if let Some(field_name) = &key.value {
                         let field_doc = documented_key.doc.as_ref().map(|lines| {
@@ -151,9 +153,10 @@ impl TypeMapper {
                 )))
             }
             Schema::Enum(enum_schema) => {
-                let enum_variants = enum_schema
-                    .0
-                    .keys()
+                let mut names: Vec<_> = enum_schema.0.keys().collect();
+                names.sort_by(|a, b| a.value().cmp(b.value()));
+                let enum_variants = names
+                    .into_iter()
                     .map(|documented_name| EnumVariant {
                         name: documented_name.value().clone(),
                         doc: documented_name.doc().map(|lines| {
diff --git a/crates/styx-lsp/src/schema_hints.rs b/crates/styx-lsp/src/schema_hints.rs
index 1ba1d17..f844ca1 100644
--- a/crates/styx-lsp/src/schema_hints.rs
+++ b/crates/styx-lsp/src/schema_hints.rs
@@ -165,8 +165,10 @@ pub fn find_matching_hint(document_uri: &Url) -> Option<SchemaMatch> {
     // Load the registry
     let registry = load_registry()?;
 
-    // Check each hint's patterns
-    for (tool_name, hint) in registry.hints {
+    // Check each hint's patterns, in a fixed order
+    let mut hints: Vec<_> = registry.hints.into_iter().collect();
+    hints.sort_by(|(a, _), (b, _)| a.cmp(b));
+    for (tool_name, hint) in hints {
         for pattern in &hint.patterns {
             if matches_pattern(&file_path, pattern, git_root.as_deref()) {
                 return Some(SchemaMatch {
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..85aabd5 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -363,7 +363,10 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
 fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
     match schema {
         Schema::Object(obj) => {
-            for (key, field_schema) in &obj.0 {
+            // The schema is a hash map: list its fields in a fixed order
+            let mut entries: Vec<_> = obj.0.iter().collect();
+            entries.sort_by(|(a, _), (b, _)| a.value.value.cmp(&b.value.value));
+            for (key, field_schema) in entries {
                 // Skip the catch-all @ field (those with no name)
                 let Some(name) = key.name() else { continue };
 
@@ -433,7 +436,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         }
         Schema::Enum(e) => {
             e.0.keys()
-                .next()
+                .min_by_key(|k| &k.value)
                 .map(|k| format!("@{}", k.value))
                 .unwrap_or_else(|| "@".to_string())
         }
@@ -633,16 +636,15 @@ fn get_schema_at_path_recursive(
             }
 
             // Try catch-all keys (like @string or @)
-            for (key, field_schema) in &obj.0 {
-                // Check for typed catch-all like @string (tag = Some("string"), value = None)
-                // or unit catch-all @ (tag = Some(""), value = None)
-                // key is Documented<ObjectKey>, so key.value is the ObjectKey
-                if key.value.value.is_none() && key.value.tag.is_some() {
-                    return get_schema_at_path_recursive(field_schema, rest, schema_file);
-                }
-            }
-
-            None
+            // Check for typed catch-all like @string (tag = Some("string"), value = None)
+            // or unit catch-all @ (tag = Some(""), value = None)
+            // key is Documented<ObjectKey>, so key.value is the ObjectKey
+            let (_, field_schema) = obj
+                .0
+                .iter()
+                .filter(|(key, _)| key.value.value.is_none() && key.value.tag.is_some())
+                .min_by_key(|(key, _)| key.value.tag.as_deref())?;
+            get_schema_at_path_recursive(field_schema, rest, schema_file)
         }
         Schema::Enum(enum_schema) => {
             // Check if field_name is a tag reference like "@query"
-- 
2.43.0


From 8ca9b4d5e20d7375f01d3840f3bddc4d9672f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:03 +0000
Subject: [PATCH 07/26] fix: publish and diff never act on a failed lookup or
 download

---
 crates/styx-cli/src/main.rs | 140 ++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 46 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 3fb5fac..07e5000 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1570,8 +1570,8 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
         CliError::Usage("schema must have meta.crate field for publishing".into())
     })?;
 
-    let (version, _changes) = match fetch_latest_version(&name) {
-        Ok(latest_version) => {
+    let (version, _changes) = match fetch_latest_version(&name)? {
+        Some(latest_version) => {
             eprintln!("Found {name}@{latest_version} on staging.crates.io");
             eprintln!();
 
@@ -1616,7 +1616,7 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
 
             (next_version, Some(changes))
         }
-        Err(_) => {
+        None => {
             eprintln!("No existing version found - this will be the first publish.");
             ("0.1.0".to_string(), None)
         }
@@ -1634,7 +1634,8 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
         }
     }
 
-    let temp_dir = std::env::temp_dir().join(format!("styx-publish-{name}-{}", std::process::id()));
+    let temp = TempDir::new("styx-publish")?;
+    let temp_dir = &temp.0;
     std::fs::create_dir_all(temp_dir.join("src"))?;
     std::fs::create_dir_all(temp_dir.join(".cargo"))?;
 
@@ -1662,7 +1663,7 @@ index = "{STAGING_INDEX}"
     cmd.arg("publish")
         .arg("--registry")
         .arg("staging")
-        .current_dir(&temp_dir);
+        .current_dir(temp_dir);
 
     if let Some(token) = token {
         cmd.env("CARGO_REGISTRIES_STAGING_TOKEN", token);
@@ -1675,8 +1676,6 @@ index = "{STAGING_INDEX}"
         ))
     })?;
 
-    let _ = std::fs::remove_dir_all(&temp_dir);
-
     if status.success() {
         eprintln!("Published {name}@{version} to staging.crates.io");
         Ok(())
@@ -1725,14 +1724,18 @@ fn calculate_next_version(current: &str, changes: &SchemaChanges) -> Result<Stri
 
     let (new_major, new_minor, new_patch) = if !changes.breaking.is_empty() {
         if major == 0 {
-            (0, minor + 1, 0)
+            (Some(0), minor.checked_add(1), Some(0))
         } else {
-            (major + 1, 0, 0)
+            (major.checked_add(1), Some(0), Some(0))
         }
     } else if !changes.additive.is_empty() {
-        (major, minor + 1, 0)
+        (Some(major), minor.checked_add(1), Some(0))
     } else {
-        (major, minor, patch + 1)
+        (Some(major), Some(minor), patch.checked_add(1))
+    };
+    let (Some(new_major), Some(new_minor), Some(new_patch)) = (new_major, new_minor, new_patch)
+    else {
+        return Err(CliError::Parse(format!("no version follows {current}")));
     };
 
     Ok(format!("{new_major}.{new_minor}.{new_patch}"))
@@ -1751,7 +1754,9 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
 
     let version = match baseline {
         Some(v) => v.to_string(),
-        None => fetch_latest_version(crate_name)?,
+        None => fetch_latest_version(crate_name)?.ok_or_else(|| {
+            CliError::Usage(format!("crate {crate_name} not found on staging.crates.io"))
+        })?,
     };
 
     eprintln!("Comparing against {crate_name}@{version}...");
@@ -1801,63 +1806,106 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
     Ok(())
 }
 
-fn fetch_latest_version(crate_name: &str) -> Result<String, CliError> {
+/// A directory of its own for one run, removed when it goes out of scope.
+struct TempDir(std::path::PathBuf);
+
+impl TempDir {
+    fn new(prefix: &str) -> Result<Self, CliError> {
+        let mut n = 0;
+        loop {
+            let path = std::env::temp_dir().join(format!("{prefix}-{}-{n}", std::process::id()));
+            match std::fs::create_dir(&path) {
+                Ok(()) => return Ok(TempDir(path)),
+                // Left behind by a process that died: its contents are not ours to use.
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists && n < 1000 => n += 1,
+                Err(e) => return Err(e.into()),
+            }
+        }
+    }
+}
+
+impl Drop for TempDir {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_dir_all(&self.0);
+    }
+}
+
+/// A helper program that does not get to see the access token and cannot take for ever.
+fn helper(program: &str) -> std::process::Command {
+    let mut cmd = std::process::Command::new(program);
+    cmd.env_remove("STYX_STAGING_TOKEN");
+    if program == "curl" {
+        cmd.args(["--connect-timeout", "30", "--max-time", "300"]);
+    }
+    cmd
+}
+
+/// The latest published version, or `None` if the registry says there is no such crate.
+fn fetch_latest_version(crate_name: &str) -> Result<Option<String>, CliError> {
     let url = format!("{STAGING_API}/{crate_name}");
 
-    let output = std::process::Command::new("curl")
-        .args(["-sfL", &url])
+    let output = helper("curl")
+        .args(["-sSL", "-w", "\n%{http_code}", &url])
+        .stderr(std::process::Stdio::inherit())
         .output()
         .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("curl failed: {e}"))))?;
 
     if !output.status.success() {
-        return Err(CliError::Usage(format!(
-            "crate {crate_name} not found on staging.crates.io"
-        )));
+        return Err(CliError::Io(io::Error::other(format!(
+            "could not look up {crate_name} on staging.crates.io: curl: {}",
+            output.status
+        ))));
+    }
+
+    let text = String::from_utf8_lossy(&output.stdout);
+    let (body, code) = text.rsplit_once('\n').unwrap_or(("", &text));
+    match code.trim() {
+        "200" => {}
+        "404" => return Ok(None),
+        code => {
+            return Err(CliError::Io(io::Error::other(format!(
+                "could not look up {crate_name} on staging.crates.io: HTTP status {code}"
+            ))));
+        }
     }
 
-    let json: serde_json::Value = serde_json::from_slice(&output.stdout)
+    let json: serde_json::Value = serde_json::from_str(body)
         .map_err(|e| CliError::Parse(format!("invalid JSON from crates.io: {e}")))?;
 
     json["crate"]["max_version"]
         .as_str()
-        .map(String::from)
+        .map(|v| Some(v.to_string()))
         .ok_or_else(|| CliError::Parse("could not find max_version in response".into()))
 }
 
 fn fetch_crate_schema(crate_name: &str, version: &str) -> Result<String, CliError> {
     let url = format!("{STAGING_DOWNLOAD}/{crate_name}/{version}/download");
-    let temp_dir =
-        std::env::temp_dir().join(format!("styx-diff-{}-{}", crate_name, std::process::id()));
-    std::fs::create_dir_all(&temp_dir)?;
-
-    let status = std::process::Command::new("sh")
-        .arg("-c")
-        .arg(format!(
-            "curl -sfL '{}' | tar xzf - -C '{}'",
-            url,
-            temp_dir.display()
-        ))
-        .status()
-        .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("download failed: {e}"))))?;
-
-    if !status.success() {
-        let _ = std::fs::remove_dir_all(&temp_dir);
-        return Err(CliError::Usage(format!(
-            "failed to download {crate_name}@{version}"
-        )));
+    let temp = TempDir::new("styx-diff")?;
+    let dir = temp.0.display().to_string();
+    let archive = format!("{dir}/download");
+
+    // Unpack only what was downloaded completely.
+    for (program, args) in [
+        ("curl", ["-sSfL", "-o", &archive, &url]),
+        ("tar", ["-xzf", &archive, "-C", &dir]),
+    ] {
+        let status = helper(program).args(args).status().map_err(|e| {
+            CliError::Io(io::Error::new(e.kind(), format!("{program} failed: {e}")))
+        })?;
+        if !status.success() {
+            return Err(CliError::Usage(format!(
+                "failed to download {crate_name}@{version}: {program}: {status}"
+            )));
+        }
     }
 
-    let schema_path = temp_dir.join(format!("{crate_name}-{version}/schema.styx"));
-    let content = std::fs::read_to_string(&schema_path).map_err(|e| {
-        let _ = std::fs::remove_dir_all(&temp_dir);
+    let schema_path = temp.0.join(format!("{crate_name}-{version}/schema.styx"));
+    std::fs::read_to_string(&schema_path).map_err(|e| {
         CliError::Io(io::Error::new(
             e.kind(),
             format!("schema.styx not found in crate: {e}"),
         ))
-    })?;
-
-    let _ = std::fs::remove_dir_all(&temp_dir);
-    Ok(content)
+    })
 }
 
 #[derive(Default)]
-- 
2.43.0


From aa62ac1ec00df1d83d301cac0e99aa6947f8af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:57 +0000
Subject: [PATCH 08/26] fix: an extension is allowed only by its exact name

---
 crates/styx-lsp/src/extensions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index c6da86d..da65f57 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -131,8 +131,7 @@ impl ExtensionManager {
     /// Check if an extension is allowed.
     pub async fn is_allowed(&self, command: &str) -> bool {
         let allowlist = self.allowlist.read().await;
-        // For now, allow if the first component of the command is in the allowlist
-        allowlist.iter().any(|allowed| command.starts_with(allowed))
+        allowlist.iter().any(|allowed| allowed == command)
     }
 
     /// Add a command to the allowlist and persist to user config.
-- 
2.43.0


From 07b685b6df85bd2a3d6845391f31ba98cbd67384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 09/26] fix: allowing an extension is durable and keeps the
 rest of the configuration

The allow command now reads the config file again under a lock and replaces it atomically, keeps
everything else in it, never overwrites a file it cannot read, and reports a failure to save.
---
 crates/styx-lsp/src/atomic_file.rs |  24 ++++
 crates/styx-lsp/src/config.rs      | 182 ++++++++++++++++++++++++-----
 crates/styx-lsp/src/extensions.rs  |  17 ++-
 crates/styx-lsp/src/server.rs      |  11 +-
 4 files changed, 190 insertions(+), 44 deletions(-)

diff --git a/crates/styx-lsp/src/atomic_file.rs b/crates/styx-lsp/src/atomic_file.rs
index ea97e9b..75fbf0a 100644
--- a/crates/styx-lsp/src/atomic_file.rs
+++ b/crates/styx-lsp/src/atomic_file.rs
@@ -40,6 +40,30 @@ pub fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> io::Result<(
     sync_dir(dir)
 }
 
+/// Create a directory and its missing parents so that they outlast a crash of the machine.
+pub fn create_dir_all(dir: &Path) -> io::Result<()> {
+    let parent = match dir.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    };
+    let created = match fs::create_dir(dir) {
+        Err(e) if e.kind() == io::ErrorKind::NotFound => {
+            create_dir_all(parent)?;
+            fs::create_dir(dir)
+        }
+        result => result,
+    };
+    match created {
+        Ok(()) => sync_dir(parent),
+        Err(_) if dir.is_dir() => {
+            // May have been created by a process that died before this.
+            let _ = sync_dir(parent);
+            Ok(())
+        }
+        Err(e) => Err(e),
+    }
+}
+
 fn follow_links(path: &Path) -> io::Result<PathBuf> {
     let mut target = path.to_path_buf();
     for _ in 0..40 {
diff --git a/crates/styx-lsp/src/config.rs b/crates/styx-lsp/src/config.rs
index 8473db8..fb57452 100644
--- a/crates/styx-lsp/src/config.rs
+++ b/crates/styx-lsp/src/config.rs
@@ -3,11 +3,14 @@
 //! Configuration is stored at `~/.config/styx/config.styx` and includes
 //! user preferences like allowed LSP extensions.
 
-use std::path::PathBuf;
+use std::fs::File;
+use std::path::{Path, PathBuf};
 
 use facet::Facet;
 use tracing::{debug, info, warn};
 
+use crate::atomic_file;
+
 // Embed the schema for the user config file (generated from StyxUserConfig in build.rs).
 // This allows the Styx LSP to provide schema validation for config.styx files.
 styx_embed::embed_outdir_file!("config.schema.styx");
@@ -38,28 +41,18 @@ pub fn config_path() -> Option<PathBuf> {
 /// Load the user configuration from disk.
 ///
 /// Returns `Ok(None)` if the config file doesn't exist yet.
-/// Returns `Err` if the file exists but couldn't be parsed.
+/// Returns `Err` if the file exists but couldn't be read or parsed.
 pub fn load_config() -> Result<Option<StyxUserConfig>, LoadConfigError> {
     let Some(path) = config_path() else {
         debug!("No config directory available");
         return Ok(None);
     };
 
-    if !path.exists() {
+    let Some(content) = read_config(&path)? else {
         debug!(?path, "Config file does not exist yet");
         return Ok(None);
-    }
-
-    let content = std::fs::read_to_string(&path).map_err(|e| LoadConfigError::Io {
-        path: path.clone(),
-        error: e,
-    })?;
-
-    let config: StyxUserConfig =
-        facet_styx::from_str(&content).map_err(|e| LoadConfigError::Parse {
-            path: path.clone(),
-            error: e.to_string(),
-        })?;
+    };
+    let config = parse_config(&path, &content)?;
 
     info!(
         ?path,
@@ -69,33 +62,149 @@ pub fn load_config() -> Result<Option<StyxUserConfig>, LoadConfigError> {
     Ok(Some(config))
 }
 
-/// Save the user configuration to disk.
+/// Read the config file. Only a file that does not exist is `Ok(None)`.
+fn read_config(path: &Path) -> Result<Option<String>, LoadConfigError> {
+    match std::fs::read_to_string(path) {
+        Ok(content) => Ok(Some(content)),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(error) => Err(LoadConfigError::Io {
+            path: path.to_path_buf(),
+            error,
+        }),
+    }
+}
+
+fn parse_config(path: &Path, content: &str) -> Result<StyxUserConfig, LoadConfigError> {
+    facet_styx::from_str(content).map_err(|e| LoadConfigError::Parse {
+        path: path.to_path_buf(),
+        error: e.to_string(),
+    })
+}
+
+/// Save the user configuration to disk, replacing what was there.
 ///
 /// Creates the config directory if it doesn't exist.
 pub fn save_config(config: &StyxUserConfig) -> Result<(), SaveConfigError> {
-    let Some(path) = config_path() else {
-        warn!("No config directory available, cannot save config");
-        return Err(SaveConfigError::NoConfigDir);
+    let path = writable_config_path()?;
+    let _lock = lock_config(&path)?;
+    write_config(&path, &new_config(config)?)
+}
+
+/// Add a command to the allowed extensions in the config file.
+///
+/// The file is read again first, so what other processes allowed meanwhile is kept, and so is
+/// everything else in it. A file that can't be read or understood is left alone.
+pub fn allow_extension(command: &str) -> Result<(), SaveConfigError> {
+    let path = writable_config_path()?;
+    let _lock = lock_config(&path)?;
+
+    let Some(content) = read_config(&path)? else {
+        let config = StyxUserConfig {
+            allowed_extensions: vec![command.to_string()],
+        };
+        return write_config(&path, &new_config(&config)?);
     };
 
-    // Create the directory if it doesn't exist
-    if let Some(parent) = path.parent() {
-        std::fs::create_dir_all(parent).map_err(|e| SaveConfigError::Io {
-            path: path.clone(),
-            error: e,
+    let mut allowed = parse_config(&path, &content)?.allowed_extensions;
+    if allowed.iter().any(|c| c == command) {
+        // Written even so, to be sure that what is there is on stable storage.
+        return write_config(&path, &content);
+    }
+    allowed.push(command.to_string());
+
+    // Never save what would not be read back.
+    let updated = with_allowed_extension(&content, command)?
+        .into_iter()
+        .find(|updated| parse_config(&path, updated).is_ok_and(|c| c.allowed_extensions == allowed))
+        .ok_or_else(|| SaveConfigError::Serialize {
+            error: format!("cannot add {command:?} to {}", path.display()),
         })?;
+    write_config(&path, &updated)
+}
+
+/// Ways to add a command to the text of a config file, the preferred one first.
+fn with_allowed_extension(content: &str, command: &str) -> Result<Vec<String>, SaveConfigError> {
+    const KEY: &str = "allowed_extensions";
+
+    let entry = serialize(&StyxUserConfig {
+        allowed_extensions: vec![command.to_string()],
+    })?;
+    let insert = |at: usize, text: &str| format!("{}{text}{}", &content[..at], &content[at..]);
+
+    let tree = styx_tree::parse(content).ok();
+    let list = tree
+        .as_ref()
+        .and_then(|tree| tree.as_object())
+        .and_then(|root| root.entries.iter().find(|e| e.key.as_str() == Some(KEY)))
+        .and_then(|e| e.value.span);
+    if let Some(span) = list {
+        // Before the closing parenthesis
+        let item = entry.trim().strip_prefix(KEY).unwrap_or_default().trim();
+        let item = item.strip_prefix('(').unwrap_or(item);
+        let item = item.strip_suffix(')').unwrap_or(item);
+        let (start, close) = (span.start as usize, span.end as usize - 1);
+        let empty = content[start..close].ends_with('(');
+        let separator = if empty { "" } else { " " };
+        return Ok(vec![insert(close, &format!("{separator}{item}"))]);
     }
 
-    // Serialize with the schema reference
-    let content = format!(
+    let newline = if content.is_empty() || content.ends_with('\n') {
+        ""
+    } else {
+        "\n"
+    };
+    let mut ways = vec![format!("{content}{newline}{entry}")];
+    // The whole file may be one object in braces
+    if let Some(close) = content.rfind('}') {
+        ways.push(insert(close, &format!("\n{entry}")));
+    }
+    Ok(ways)
+}
+
+fn writable_config_path() -> Result<PathBuf, SaveConfigError> {
+    config_path().ok_or_else(|| {
+        warn!("No config directory available, cannot save config");
+        SaveConfigError::NoConfigDir
+    })
+}
+
+/// Keep other processes from changing the config file until the returned file is dropped.
+fn lock_config(path: &Path) -> Result<File, SaveConfigError> {
+    let lock = || -> std::io::Result<File> {
+        if let Some(parent) = path.parent() {
+            atomic_file::create_dir_all(parent)?;
+        }
+        let file = File::options()
+            .create(true)
+            .truncate(false)
+            .write(true)
+            .open(path.with_extension("styx.lock"))?;
+        file.lock()?;
+        Ok(file)
+    };
+    lock().map_err(|error| SaveConfigError::Io {
+        path: path.to_path_buf(),
+        error,
+    })
+}
+
+/// The text of a config file that holds just this config, with the schema reference.
+fn new_config(config: &StyxUserConfig) -> Result<String, SaveConfigError> {
+    Ok(format!(
         "meta {{ @schema crate:styx-lsp-config@1 }}\n\n{}",
-        facet_styx::to_string(config).map_err(|e| SaveConfigError::Serialize {
-            error: e.to_string(),
-        })?
-    );
+        serialize(config)?
+    ))
+}
 
-    std::fs::write(&path, &content).map_err(|e| SaveConfigError::Io {
-        path: path.clone(),
+fn serialize(config: &StyxUserConfig) -> Result<String, SaveConfigError> {
+    facet_styx::to_string(config).map_err(|e| SaveConfigError::Serialize {
+        error: e.to_string(),
+    })
+}
+
+fn write_config(path: &Path, content: &str) -> Result<(), SaveConfigError> {
+    atomic_file::write(path, content).map_err(|e| SaveConfigError::Io {
+        path: path.to_path_buf(),
         error: e,
     })?;
 
@@ -135,6 +244,8 @@ impl std::error::Error for LoadConfigError {}
 #[derive(Debug)]
 pub enum SaveConfigError {
     NoConfigDir,
+    /// The existing config file can't be updated because it can't be read.
+    Load(LoadConfigError),
     Io {
         path: PathBuf,
         error: std::io::Error,
@@ -144,10 +255,17 @@ pub enum SaveConfigError {
     },
 }
 
+impl From<LoadConfigError> for SaveConfigError {
+    fn from(e: LoadConfigError) -> Self {
+        SaveConfigError::Load(e)
+    }
+}
+
 impl std::fmt::Display for SaveConfigError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             SaveConfigError::NoConfigDir => write!(f, "No config directory available"),
+            SaveConfigError::Load(e) => write!(f, "Not overwriting the config: {e}"),
             SaveConfigError::Io { path, error } => {
                 write!(f, "Failed to write config at {}: {}", path.display(), error)
             }
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index da65f57..0c956c9 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -38,7 +38,7 @@ use tower_lsp::lsp_types::Url;
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
-use crate::config::{self, StyxUserConfig};
+use crate::config::{self, SaveConfigError};
 use crate::schema_validation::resolve_schema;
 use crate::server::DocumentMap;
 #[cfg(styx_sim)]
@@ -135,19 +135,16 @@ impl ExtensionManager {
     }
 
     /// Add a command to the allowlist and persist to user config.
-    pub async fn allow(&self, command: String) {
+    ///
+    /// If it can't be persisted, the command is allowed for this session only.
+    pub async fn allow(&self, command: String) -> Result<(), SaveConfigError> {
         let mut allowlist = self.allowlist.write().await;
         if !allowlist.contains(&command) {
             allowlist.push(command.clone());
-
-            // Persist to user config
-            let config = StyxUserConfig {
-                allowed_extensions: allowlist.clone(),
-            };
-            if let Err(e) = config::save_config(&config) {
-                warn!(error = %e, "Failed to save user config");
-            }
         }
+        config::allow_extension(&command).inspect_err(|e| {
+            warn!(error = %e, "Failed to save user config");
+        })
     }
 
     /// Get or spawn an extension for a schema.
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 6e46bb1..6c05da3 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 use styx_cst::{Parse, parse};
 use styx_tree::Value;
 use tokio::sync::RwLock;
-use tower_lsp::jsonrpc::Result;
+use tower_lsp::jsonrpc::{Error, Result};
 use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
@@ -1593,7 +1593,7 @@ impl LanguageServer for StyxLanguageServer {
                     && let Some(command) = arg.get("command").and_then(|v| v.as_str())
                 {
                     tracing::info!(command, "Allowing LSP extension");
-                    self.extensions.allow(command.to_string()).await;
+                    let saved = self.extensions.allow(command.to_string()).await;
 
                     // Notify the user
                     self.client
@@ -1626,6 +1626,13 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Request inlay hint refresh so hints appear immediately
                     let _ = self.client.inlay_hint_refresh().await;
+
+                    // It is allowed now, but the user must know if that won't last
+                    saved.map_err(|e| Error {
+                        message: format!("'{command}' is allowed for this session only: {e}")
+                            .into(),
+                        ..Error::internal_error()
+                    })?;
                 }
                 Ok(None)
             }
-- 
2.43.0


From 5b22ec642fd408fd97fef723a0d90ece68790461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 10/26] fix: one extension process per schema, none left
 behind, none waited for forever

Concurrent handlers start an extension once, a start or call that takes too long is given up, a
process that fails to start is killed, a failed start is not retried on every keystroke, and all
extensions are killed when the session ends.
---
 crates/styx-lsp/src/extensions.rs | 118 +++++++++++++++++++++++++++---
 crates/styx-lsp/src/server.rs     |  19 +++--
 2 files changed, 118 insertions(+), 19 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 0c956c9..73d11cf 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -18,10 +18,14 @@ pub enum ExtensionResult {
 }
 
 use std::collections::HashMap;
+use std::fmt::Debug;
+use std::future::Future;
 use std::io;
 use std::pin::Pin;
 use std::process::Stdio;
+use std::sync::{Arc, Mutex as StdMutex};
 use std::task::{Context, Poll};
+use std::time::Duration;
 
 use facet_styx::LspExtensionConfig;
 pub use styx_lsp_ext::StyxLspExtensionClient;
@@ -33,7 +37,8 @@ use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 #[cfg(not(styx_sim))]
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock, watch};
+use tokio::time::{Instant, timeout};
 use tower_lsp::lsp_types::Url;
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
@@ -44,6 +49,23 @@ use crate::server::DocumentMap;
 #[cfg(styx_sim)]
 use crate::sim::process::{Child, ChildStdin, ChildStdout, Command};
 
+/// How long an extension may take to start up.
+const START_TIMEOUT: Duration = Duration::from_secs(10);
+/// How long an extension may take to answer.
+const REPLY_TIMEOUT: Duration = Duration::from_secs(5);
+/// How long to wait before starting an extension again that failed to start.
+const RETRY_DELAY: Duration = Duration::from_secs(30);
+
+/// Wait for an extension to answer, but not forever.
+pub(crate) async fn reply<T, E: Debug>(
+    call: impl Future<Output = Result<T, E>>,
+) -> Result<T, String> {
+    match timeout(REPLY_TIMEOUT, call).await {
+        Ok(result) => result.map_err(|e| format!("{e:?}")),
+        Err(_) => Err("no answer in time".to_string()),
+    }
+}
+
 /// A duplex stream combining a child process's stdin and stdout.
 ///
 /// Write goes to stdin (child reads), read comes from stdout (child writes).
@@ -92,6 +114,12 @@ pub struct ExtensionManager {
     extensions: RwLock<HashMap<String, Extension>>,
     /// Allowed extensions (from user config).
     allowlist: RwLock<Vec<String>>,
+    /// Held for a schema ID while its extension is being started.
+    starting: StdMutex<HashMap<String, Arc<Mutex<()>>>>,
+    /// When extensions failed to start, keyed by schema ID.
+    failures: StdMutex<HashMap<String, Instant>>,
+    /// Set once the session is over, when no extension may be started any more.
+    closed: watch::Sender<bool>,
     /// Shared document state for host callbacks.
     documents: DocumentMap,
 }
@@ -124,6 +152,9 @@ impl ExtensionManager {
         Self {
             extensions: RwLock::new(HashMap::new()),
             allowlist: RwLock::new(allowlist),
+            starting: StdMutex::default(),
+            failures: StdMutex::default(),
+            closed: watch::Sender::new(false),
             documents,
         }
     }
@@ -142,6 +173,8 @@ impl ExtensionManager {
         if !allowlist.contains(&command) {
             allowlist.push(command.clone());
         }
+        // The user wants it to run now, even if it failed to start a moment ago
+        self.failures.lock().unwrap().clear();
         config::allow_extension(&command).inspect_err(|e| {
             warn!(error = %e, "Failed to save user config");
         })
@@ -158,11 +191,8 @@ impl ExtensionManager {
         document_uri: &str,
     ) -> ExtensionResult {
         // Check if already spawned
-        {
-            let extensions = self.extensions.read().await;
-            if extensions.contains_key(schema_id) {
-                return ExtensionResult::Running;
-            }
+        if self.is_running(schema_id).await {
+            return ExtensionResult::Running;
         }
 
         // Check if allowed
@@ -176,8 +206,29 @@ impl ExtensionManager {
             };
         }
 
+        // Let only one caller start it, and the others wait for the outcome
+        let start_lock = self
+            .starting
+            .lock()
+            .unwrap()
+            .entry(schema_id.to_string())
+            .or_default()
+            .clone();
+        let _starting = start_lock.lock().await;
+        if self.is_running(schema_id).await {
+            return ExtensionResult::Running;
+        }
+        let failed_at = self.failures.lock().unwrap().get(schema_id).copied();
+        if failed_at.is_some_and(|at| at.elapsed() < RETRY_DELAY) {
+            return ExtensionResult::Failed;
+        }
+
         // Spawn the extension
         let Some(extension) = self.spawn_extension(schema_id, config, document_uri).await else {
+            self.failures
+                .lock()
+                .unwrap()
+                .insert(schema_id.to_string(), Instant::now());
             return ExtensionResult::Failed;
         };
 
@@ -188,6 +239,10 @@ impl ExtensionManager {
         ExtensionResult::Running
     }
 
+    async fn is_running(&self, schema_id: &str) -> bool {
+        self.extensions.read().await.contains_key(schema_id)
+    }
+
     /// Get an extension client for a schema.
     ///
     /// Returns `None` if no extension is spawned for this schema.
@@ -212,6 +267,11 @@ impl ExtensionManager {
         let command = &launch[0];
         let args = &launch[1..];
 
+        let mut closed = self.closed.subscribe();
+        if *closed.borrow() {
+            return None;
+        }
+
         info!(command, ?args, "Spawning LSP extension");
 
         let mut process = Command::new(command)
@@ -219,6 +279,7 @@ impl ExtensionManager {
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
             .stderr(Stdio::inherit())
+            .kill_on_drop(true)
             .spawn()
             .map_err(|e| {
                 warn!(command, error = %e, "Failed to spawn extension");
@@ -226,6 +287,37 @@ impl ExtensionManager {
             })
             .ok()?;
 
+        let client = tokio::select! {
+            biased;
+            () = async { let _ = closed.wait_for(|closed| *closed).await; } => None,
+            result = timeout(
+                START_TIMEOUT,
+                self.connect_extension(&mut process, command, schema_id, document_uri),
+            ) => result.unwrap_or_else(|_| {
+                warn!(command, "Extension did not start in time");
+                None
+            }),
+        };
+        let Some(client) = client else {
+            let _ = process.kill().await;
+            return None;
+        };
+
+        Some(Extension {
+            process,
+            config: config.clone(),
+            client,
+        })
+    }
+
+    /// Establish the vox connection to an extension process and initialize it.
+    async fn connect_extension(
+        &self,
+        process: &mut Child,
+        command: &str,
+        schema_id: &str,
+        document_uri: &str,
+    ) -> Option<StyxLspExtensionClient> {
         // Take stdin/stdout for vox communication
         let stdin = process.stdin.take()?;
         let stdout = process.stdout.take()?;
@@ -271,15 +363,17 @@ impl ExtensionManager {
             }
         }
 
-        Some(Extension {
-            process,
-            config: config.clone(),
-            client,
-        })
+        Some(client)
     }
 
-    /// Shutdown all extensions.
+    /// Shutdown all extensions, and don't start any more.
     pub async fn shutdown_all(&self) {
+        self.closed.send_replace(true);
+        let starting: Vec<_> = self.starting.lock().unwrap().values().cloned().collect();
+        for start_lock in starting {
+            let _ = start_lock.lock().await;
+        }
+
         let mut extensions = self.extensions.write().await;
         for (schema_id, mut ext) in extensions.drain() {
             debug!(schema_id, "Shutting down extension");
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 6c05da3..8e9eec6 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -10,7 +10,7 @@ use tower_lsp::jsonrpc::{Error, Result};
 use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
-use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
+use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info, reply};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
     find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
@@ -148,7 +148,7 @@ impl StyxLanguageServer {
                     content: content.to_string(),
                 };
 
-                match client.diagnostics(ext_params).await {
+                match reply(client.diagnostics(ext_params)).await {
                     Ok(ext_diagnostics) => {
                         tracing::debug!(
                             count = ext_diagnostics.len(),
@@ -489,6 +489,7 @@ impl LanguageServer for StyxLanguageServer {
     }
 
     async fn shutdown(&self) -> Result<()> {
+        self.extensions.shutdown_all().await;
         Ok(())
     }
 
@@ -752,7 +753,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.definition(ext_params).await {
+                match reply(client.definition(ext_params)).await {
                     Ok(locations) if !locations.is_empty() => {
                         tracing::debug!(count = locations.len(), "Extension returned definitions");
                         let lsp_locations: Vec<Location> = locations
@@ -868,7 +869,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.hover(ext_params).await {
+                match reply(client.hover(ext_params)).await {
                     Ok(Some(result)) => {
                         tracing::debug!(contents = %result.contents, "Extension returned hover");
                         let range = result.range.map(|r| Range {
@@ -1138,7 +1139,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.completions(ext_params).await {
+                match reply(client.completions(ext_params)).await {
                     Ok(ext_items) => {
                         tracing::debug!(count = ext_items.len(), "Got completions from extension");
                         for item in ext_items {
@@ -1338,7 +1339,7 @@ impl LanguageServer for StyxLanguageServer {
                     diagnostics: ext_diagnostics,
                 };
 
-                match client.code_actions(ext_params).await {
+                match reply(client.code_actions(ext_params)).await {
                     Ok(ext_actions) => {
                         tracing::debug!(
                             count = ext_actions.len(),
@@ -1824,7 +1825,7 @@ impl LanguageServer for StyxLanguageServer {
                     context: Some(tree.clone()),
                 };
 
-                match client.inlay_hints(ext_params).await {
+                match reply(client.inlay_hints(ext_params)).await {
                     Ok(ext_hints) => {
                         tracing::debug!(count = ext_hints.len(), "Got inlay hints from extension");
                         for hint in ext_hints {
@@ -3405,8 +3406,12 @@ pub async fn run() -> eyre::Result<()> {
     let (stdin, stdout) = crate::sim::stdio();
 
     let (service, socket) = LspService::new(StyxLanguageServer::new);
+    let extensions = service.inner().extensions.clone();
     Server::new(stdin, stdout, socket).serve(service).await;
 
+    // The editor may have gone without a shutdown request
+    extensions.shutdown_all().await;
+
     Ok(())
 }
 
-- 
2.43.0


From 5d3780fc9a14f8ae94292b706a4244a35e9582f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 11/26] fix: requests see the latest text, and diagnostics
 never go back to an older one

The text of a change is in use as soon as it is handled, whatever an extension does meanwhile.
Diagnostics follow in the background and are dropped when the text has changed; no lock is held
while an extension is asked; results that depended on hash map order are sorted.
---
 crates/styx-lsp/src/server.rs | 299 ++++++++++++++++++----------------
 1 file changed, 157 insertions(+), 142 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 8e9eec6..67960b4 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1,7 +1,7 @@
 //! LSP server implementation
 
 use std::collections::HashMap;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 
 use styx_cst::{Parse, parse};
 use styx_tree::Value;
@@ -21,6 +21,7 @@ use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
 
 /// Document state tracked by the server
+#[derive(Clone)]
 pub struct DocumentState {
     /// Document content
     pub content: String,
@@ -44,26 +45,123 @@ struct BlockedExtensionInfo {
     command: String,
 }
 
+/// How many messages from the editor may be in progress at once. Requests wait for extensions, and
+/// must not keep others waiting.
+const MAX_CONCURRENCY: usize = 256;
+
 /// The Styx language server
+#[derive(Clone)]
 pub struct StyxLanguageServer {
     /// LSP client for sending notifications
     client: Client,
     /// Open documents
     documents: DocumentMap,
+    /// Identifies the current state of each open document. Changed only together with `documents`.
+    revisions: Arc<Mutex<Revisions>>,
+    /// Held while diagnostics are sent, so that newer ones can't be overtaken by older ones.
+    publishing: Arc<tokio::sync::Mutex<()>>,
     /// Extension manager
     extensions: Arc<ExtensionManager>,
 }
 
+/// Numbers the states that open documents go through.
+#[derive(Default)]
+struct Revisions {
+    last: u64,
+    current: HashMap<Url, u64>,
+}
+
 impl StyxLanguageServer {
     pub fn new(client: Client) -> Self {
         let documents: DocumentMap = Arc::new(RwLock::new(HashMap::new()));
         Self {
             client,
             documents: documents.clone(),
+            revisions: Arc::default(),
+            publishing: Arc::default(),
             extensions: Arc::new(ExtensionManager::new(documents)),
         }
     }
 
+    /// Take over the text of an open document from the editor.
+    ///
+    /// The text is in use from here on. Its diagnostics, which may involve an extension, follow.
+    async fn set_document(&self, uri: Url, content: String, version: i32) {
+        // Parse the document (CST)
+        let parse = parse(&content);
+
+        // Parse into tree for schema validation
+        let tree = styx_tree::parse(&content).ok();
+
+        {
+            let mut docs = self.documents.write().await;
+            docs.insert(
+                uri.clone(),
+                DocumentState {
+                    content,
+                    parse,
+                    tree,
+                    version,
+                },
+            );
+            let mut revisions = self.revisions.lock().unwrap();
+            revisions.last += 1;
+            let revision = revisions.last;
+            revisions.current.insert(uri.clone(), revision);
+        }
+
+        self.refresh_diagnostics(uri);
+    }
+
+    /// The number of the current state of a document, if it is open.
+    fn revision(&self, uri: &Url) -> Option<u64> {
+        self.revisions.lock().unwrap().current.get(uri).copied()
+    }
+
+    /// Publish the diagnostics of a document in the background, unless it changes meanwhile.
+    fn refresh_diagnostics(&self, uri: Url) {
+        let server = self.clone();
+        tokio::spawn(async move {
+            let (doc, revision) = {
+                let docs = server.documents.read().await;
+                let Some(doc) = docs.get(&uri) else {
+                    return;
+                };
+                (doc.clone(), server.revision(&uri))
+            };
+            let is_current = || server.revision(&uri) == revision;
+
+            // Check for LSP extension in schema
+            let blocked_extension = if let Some(ref tree) = doc.tree {
+                server.check_for_extension(tree, &uri).await
+            } else {
+                None
+            };
+            if !is_current() {
+                return;
+            }
+
+            let diagnostics = server.diagnostics(&uri, &doc, blocked_extension).await;
+
+            let _publishing = server.publishing.lock().await;
+            if is_current() {
+                server
+                    .client
+                    .publish_diagnostics(uri.clone(), diagnostics, Some(doc.version))
+                    .await;
+            }
+        });
+    }
+
+    /// Publish the diagnostics of all open documents in the background.
+    async fn refresh_all_diagnostics(&self) {
+        let mut uris: Vec<Url> = self.documents.read().await.keys().cloned().collect();
+        uris.sort();
+        for uri in uris {
+            self.refresh_diagnostics(uri);
+        }
+    }
+
     /// Check if the document's schema has an LSP extension and spawn it if allowed.
     ///
     /// Returns information about blocked extensions if not allowed.
@@ -97,19 +195,21 @@ impl StyxLanguageServer {
         }
     }
 
-    /// Publish diagnostics for a document
-    #[allow(clippy::too_many_arguments)]
-    async fn publish_diagnostics(
+    /// Collect the diagnostics for a document, including those of its extension
+    async fn diagnostics(
         &self,
-        uri: Url,
-        content: &str,
-        parsed: &Parse,
-        tree: Option<&Value>,
-        tree_error: Option<&styx_tree::BuildError>,
-        version: i32,
+        uri: &Url,
+        doc: &DocumentState,
         blocked_extension: Option<BlockedExtensionInfo>,
-    ) {
-        let mut diagnostics = self.compute_diagnostics(&uri, content, parsed, tree, tree_error);
+    ) -> Vec<Diagnostic> {
+        let content = doc.content.as_str();
+        let tree = doc.tree.as_ref();
+        let tree_error = match tree {
+            Some(_) => None,
+            None => styx_tree::parse(content).err(),
+        };
+        let mut diagnostics =
+            self.compute_diagnostics(uri, content, &doc.parse, tree, tree_error.as_ref());
 
         // Add diagnostic for blocked extension if applicable
         if let Some(blocked) = blocked_extension
@@ -138,7 +238,7 @@ impl StyxLanguageServer {
 
         // Try to get diagnostics from extension
         if let Some(tree) = tree
-            && let Ok(schema_file) = load_document_schema(tree, &uri)
+            && let Ok(schema_file) = load_document_schema(tree, uri)
         {
             let schema_id = &schema_file.meta.id;
             if let Some(client) = self.extensions.get_client(schema_id).await {
@@ -184,9 +284,7 @@ impl StyxLanguageServer {
             }
         }
 
-        self.client
-            .publish_diagnostics(uri, diagnostics, Some(version))
-            .await;
+        diagnostics
     }
 
     /// Compute diagnostics for document content
@@ -494,102 +592,18 @@ impl LanguageServer for StyxLanguageServer {
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let uri = params.text_document.uri;
-        let content = params.text_document.text;
-        let version = params.text_document.version;
-
-        // Parse the document (CST)
-        let parsed = parse(&content);
-
-        // Parse into tree for schema validation
-        let (tree, tree_error) = match styx_tree::parse(&content) {
-            Ok(tree) => (Some(tree), None),
-            Err(e) => (None, Some(e)),
-        };
-
-        // Check for LSP extension in schema
-        let blocked_extension = if let Some(ref tree) = tree {
-            self.check_for_extension(tree, &uri).await
-        } else {
-            None
-        };
-
-        // Publish diagnostics
-        self.publish_diagnostics(
-            uri.clone(),
-            &content,
-            &parsed,
-            tree.as_ref(),
-            tree_error.as_ref(),
-            version,
-            blocked_extension,
-        )
-        .await;
-
-        // Store document
-        {
-            let mut docs = self.documents.write().await;
-            docs.insert(
-                uri,
-                DocumentState {
-                    content,
-                    parse: parsed,
-                    tree,
-                    version,
-                },
-            );
-        }
+        let document = params.text_document;
+        self.set_document(document.uri, document.text, document.version)
+            .await;
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        let uri = params.text_document.uri;
-        let version = params.text_document.version;
-
-        // With FULL sync, we get the entire document content
-        if let Some(change) = params.content_changes.into_iter().next() {
-            let content = change.text;
-
-            // Parse the document (CST)
-            let parsed = parse(&content);
-
-            // Parse into tree for schema validation
-            let (tree, tree_error) = match styx_tree::parse(&content) {
-                Ok(tree) => (Some(tree), None),
-                Err(e) => (None, Some(e)),
-            };
-
-            // Check for LSP extension in schema (might have changed)
-            let blocked_extension = if let Some(ref tree) = tree {
-                self.check_for_extension(tree, &uri).await
-            } else {
-                None
-            };
+        let document = params.text_document;
 
-            // Publish diagnostics
-            self.publish_diagnostics(
-                uri.clone(),
-                &content,
-                &parsed,
-                tree.as_ref(),
-                tree_error.as_ref(),
-                version,
-                blocked_extension,
-            )
-            .await;
-
-            // Update stored document
-            {
-                let mut docs = self.documents.write().await;
-                docs.insert(
-                    uri,
-                    DocumentState {
-                        content,
-                        parse: parsed,
-                        tree,
-                        version,
-                    },
-                );
-            }
+        // With FULL sync, each change is the entire document content, and the last one counts
+        if let Some(change) = params.content_changes.into_iter().next_back() {
+            self.set_document(document.uri, change.text, document.version)
+                .await;
         }
     }
 
@@ -600,10 +614,14 @@ impl LanguageServer for StyxLanguageServer {
         {
             let mut docs = self.documents.write().await;
             docs.remove(&uri);
+            self.revisions.lock().unwrap().current.remove(&uri);
         }
 
-        // Clear diagnostics
-        self.client.publish_diagnostics(uri, vec![], None).await;
+        // Clear diagnostics, unless it has been opened again
+        let _publishing = self.publishing.lock().await;
+        if self.revision(&uri).is_none() {
+            self.client.publish_diagnostics(uri, vec![], None).await;
+        }
     }
 
     async fn semantic_tokens_full(
@@ -661,7 +679,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
+        // No lock may be held while an extension is asked, it may call back
+        let docs = self.documents.read().await.clone();
         let Some(doc) = docs.get(&uri) else {
             return Ok(None);
         };
@@ -704,7 +723,7 @@ impl LanguageServer for StyxLanguageServer {
             && let Some(field_name) = find_field_key_at_offset(tree, offset)
         {
             // Search open documents for one that uses this schema
-            for (doc_uri, doc_state) in docs.iter() {
+            for (doc_uri, doc_state) in in_order(&docs) {
                 if doc_uri == &uri {
                     continue; // Skip the schema file itself
                 }
@@ -810,8 +829,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        // No lock may be held while an extension is asked, it may call back
+        let Some(doc) = self.documents.read().await.get(&uri).cloned() else {
             return Ok(None);
         };
 
@@ -944,8 +963,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position.text_document.uri;
         let position = params.text_document_position.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        // No lock may be held while an extension is asked, it may call back
+        let Some(doc) = self.documents.read().await.get(&uri).cloned() else {
             return Ok(None);
         };
 
@@ -1293,7 +1312,8 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        let docs = self.documents.read().await;
+        // (no lock may be held while it is asked, it may call back)
+        let docs = self.documents.read().await.clone();
         if let Some(doc) = docs.get(&uri)
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
@@ -1412,10 +1432,8 @@ impl LanguageServer for StyxLanguageServer {
                 }
             }
         }
-        drop(docs);
 
         // Add schema-based refactoring actions
-        let docs = self.documents.read().await;
         if let Some(doc) = docs.get(&uri)
             && let Some(ref tree) = doc.tree
         {
@@ -1606,27 +1624,14 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Re-publish diagnostics for all open documents to clear the warning
                     // and trigger extension spawning
-                    let docs = self.documents.read().await;
-                    for (uri, doc) in docs.iter() {
-                        let blocked_extension = if let Some(ref tree) = doc.tree {
-                            self.check_for_extension(tree, uri).await
-                        } else {
-                            None
-                        };
-                        self.publish_diagnostics(
-                            uri.clone(),
-                            &doc.content,
-                            &doc.parse,
-                            doc.tree.as_ref(),
-                            None, // tree_error already reported on initial load
-                            doc.version,
-                            blocked_extension,
-                        )
-                        .await;
-                    }
+                    self.refresh_all_diagnostics().await;
 
-                    // Request inlay hint refresh so hints appear immediately
-                    let _ = self.client.inlay_hint_refresh().await;
+                    // Request inlay hint refresh so hints appear immediately. The editor may
+                    // wait for this command before it answers.
+                    let client = self.client.clone();
+                    tokio::spawn(async move {
+                        let _ = client.inlay_hint_refresh().await;
+                    });
 
                     // It is allowed now, but the user must know if that won't last
                     saved.map_err(|e| Error {
@@ -1670,7 +1675,7 @@ impl LanguageServer for StyxLanguageServer {
         // Check if we're in a schema file
         if is_schema_file(tree) {
             // We're in a schema - find all docs that use this field
-            for (doc_uri, doc_state) in docs.iter() {
+            for (doc_uri, doc_state) in in_order(&docs) {
                 if doc_uri == &uri {
                     continue;
                 }
@@ -1703,7 +1708,7 @@ impl LanguageServer for StyxLanguageServer {
                     });
 
                     // Find other docs using the same schema
-                    for (doc_uri, doc_state) in docs.iter() {
+                    for (doc_uri, doc_state) in in_order(&docs) {
                         if let Some(ref doc_tree) = doc_state.tree
                             && let Ok(doc_schema) = resolve_schema(doc_tree, doc_uri)
                             && doc_schema.uri == schema.uri
@@ -3382,6 +3387,13 @@ fn generate_reorder_edit(
     })
 }
 
+/// All documents, always in the same order.
+fn in_order(docs: &HashMap<Url, DocumentState>) -> Vec<(&Url, &DocumentState)> {
+    let mut docs: Vec<_> = docs.iter().collect();
+    docs.sort_by_key(|(uri, _)| *uri);
+    docs
+}
+
 /// Run the LSP server on stdin/stdout
 pub async fn run() -> eyre::Result<()> {
     // Set up logging (no ANSI colors since output goes to stderr for LSP)
@@ -3407,7 +3419,10 @@ pub async fn run() -> eyre::Result<()> {
 
     let (service, socket) = LspService::new(StyxLanguageServer::new);
     let extensions = service.inner().extensions.clone();
-    Server::new(stdin, stdout, socket).serve(service).await;
+    Server::new(stdin, stdout, socket)
+        .concurrency_level(MAX_CONCURRENCY)
+        .serve(service)
+        .await;
 
     // The editor may have gone without a shutdown request
     extensions.shutdown_all().await;
-- 
2.43.0


From 1df1695e1eb6bcead0caa5cd5d944c4b85f79c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 12/26] fix: the language server survives malformed messages
 and ends when the editor does

Messages are checked before tower-lsp, which stops at the first one it cannot decode. The server
ends as soon as it is told to exit or the editor closes either stream, instead of hanging or
panicking.
---
 crates/styx-cli/src/main.rs   |   7 +-
 crates/styx-lsp/src/lib.rs    |   1 +
 crates/styx-lsp/src/server.rs |  19 ++-
 crates/styx-lsp/src/stdio.rs  | 305 ++++++++++++++++++++++++++++++++++
 4 files changed, 327 insertions(+), 5 deletions(-)
 create mode 100644 crates/styx-lsp/src/stdio.rs

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 07e5000..3f8f469 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -566,11 +566,14 @@ impl From<styx_gen_go::GenError> for CliError {
 
 fn run_lsp() -> Result<(), CliError> {
     let rt = tokio::runtime::Runtime::new().map_err(CliError::Io)?;
-    rt.block_on(async {
+    let result = rt.block_on(async {
         styx_lsp::run()
             .await
             .map_err(|e| CliError::Io(io::Error::other(e)))
-    })
+    });
+    // The editor may keep standard input open, so don't wait for a read to finish
+    rt.shutdown_background();
+    result
 }
 
 fn run_tokens(file: &str) -> Result<(), CliError> {
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 467bc74..a124b5f 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -21,6 +21,7 @@ pub mod semantic_tokens;
 mod server;
 #[cfg(styx_sim)]
 pub mod sim;
+mod stdio;
 pub mod testing;
 
 pub use semantic_tokens::{HighlightSpan, TokenType, compute_highlight_spans};
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 67960b4..458c50b 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2,6 +2,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
+use std::time::Duration;
 
 use styx_cst::{Parse, parse};
 use styx_tree::Value;
@@ -49,6 +50,9 @@ struct BlockedExtensionInfo {
 /// must not keep others waiting.
 const MAX_CONCURRENCY: usize = 256;
 
+/// How long to finish what was asked for before the editor exited.
+const EXIT_TIMEOUT: Duration = Duration::from_secs(5);
+
 /// The Styx language server
 #[derive(Clone)]
 pub struct StyxLanguageServer {
@@ -3417,12 +3421,21 @@ pub async fn run() -> eyre::Result<()> {
     #[cfg(styx_sim)]
     let (stdin, stdout) = crate::sim::stdio();
 
+    let (stdin, stdout, session) = crate::stdio::connect(stdin, stdout);
     let (service, socket) = LspService::new(StyxLanguageServer::new);
     let extensions = service.inner().extensions.clone();
-    Server::new(stdin, stdout, socket)
+    let serve = Server::new(stdin, stdout, socket)
         .concurrency_level(MAX_CONCURRENCY)
-        .serve(service)
-        .await;
+        .serve(service);
+    tokio::select! {
+        biased;
+        () = serve => {}
+        () = async {
+            session.ended().await;
+            extensions.shutdown_all().await;
+            tokio::time::sleep(EXIT_TIMEOUT).await;
+        } => tracing::warn!("Requests still in progress at exit"),
+    }
 
     // The editor may have gone without a shutdown request
     extensions.shutdown_all().await;
diff --git a/crates/styx-lsp/src/stdio.rs b/crates/styx-lsp/src/stdio.rs
new file mode 100644
index 0000000..ac9bbff
--- /dev/null
+++ b/crates/styx-lsp/src/stdio.rs
@@ -0,0 +1,305 @@
+//! The connection to the editor.
+//!
+//! tower-lsp stops reading at the first message it can't decode, notices that it was told to exit
+//! only when another message follows, and panics when the editor stops listening. So messages are
+//! checked before it sees them, the input ends with the exit notification, and output that nobody
+//! wants is dropped.
+
+use std::collections::VecDeque;
+use std::future::poll_fn;
+use std::io;
+use std::pin::Pin;
+use std::sync::{Arc, Mutex};
+use std::task::{Context, Poll, Waker, ready};
+
+use serde_json::{Value, json};
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+use tower_lsp::jsonrpc::Response;
+use tracing::warn;
+
+/// Headers longer than this are garbage.
+const MAX_HEADER: usize = 1 << 16;
+
+/// Prepare the streams to and from the editor for tower-lsp.
+pub(crate) fn connect<R, W>(input: R, output: W) -> (Input<R>, Output<W>, Session) {
+    let session = Session::default();
+    let input = Input {
+        inner: input,
+        decoder: Decoder::default(),
+        pending: VecDeque::new(),
+        session: session.clone(),
+    };
+    let output = Output {
+        inner: output,
+        broken: false,
+        session: session.clone(),
+    };
+    (input, output, session)
+}
+
+/// Tells when the editor has exited or gone away.
+#[derive(Clone, Default)]
+pub(crate) struct Session(Arc<Mutex<SessionState>>);
+
+#[derive(Default)]
+struct SessionState {
+    ended: bool,
+    wakers: Vec<Waker>,
+}
+
+impl Session {
+    fn end(&self) {
+        let mut state = self.0.lock().unwrap();
+        state.ended = true;
+        for waker in state.wakers.drain(..) {
+            waker.wake();
+        }
+    }
+
+    fn poll_ended(&self, cx: &Context<'_>) -> Poll<()> {
+        let mut state = self.0.lock().unwrap();
+        if state.ended {
+            return Poll::Ready(());
+        }
+        if !state.wakers.iter().any(|w| w.will_wake(cx.waker())) {
+            state.wakers.push(cx.waker().clone());
+        }
+        Poll::Pending
+    }
+
+    /// Wait until nothing more will come from the editor.
+    pub(crate) async fn ended(&self) {
+        poll_fn(|cx| self.poll_ended(cx)).await
+    }
+}
+
+/// Messages from the editor.
+pub(crate) struct Input<R> {
+    inner: R,
+    decoder: Decoder,
+    /// Checked messages that have not been read yet.
+    pending: VecDeque<u8>,
+    session: Session,
+}
+
+impl<R: AsyncRead + Unpin> AsyncRead for Input<R> {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        let this = &mut *self;
+        loop {
+            if !this.pending.is_empty() {
+                let (pending, _) = this.pending.as_slices();
+                let n = pending.len().min(buf.remaining());
+                buf.put_slice(&pending[..n]);
+                this.pending.drain(..n);
+                return Poll::Ready(Ok(()));
+            }
+            if this.session.poll_ended(cx).is_ready() {
+                return Poll::Ready(Ok(()));
+            }
+
+            let mut chunk = [0; 8192];
+            let mut chunk = ReadBuf::new(&mut chunk);
+            if let Err(e) = ready!(Pin::new(&mut this.inner).poll_read(cx, &mut chunk)) {
+                warn!(error = %e, "Failed to read from the editor");
+                this.session.end();
+                continue;
+            }
+            if chunk.filled().is_empty() {
+                this.session.end();
+                continue;
+            }
+            this.decoder.buffer.extend_from_slice(chunk.filled());
+            while let Some(body) = this.decoder.next_body() {
+                let Some(message) = check(&body) else {
+                    continue;
+                };
+                let is_exit = message["method"] == "exit";
+                let message = message.to_string();
+                this.pending.extend(
+                    format!("Content-Length: {}\r\n\r\n{message}", message.len()).as_bytes(),
+                );
+                if is_exit {
+                    this.session.end();
+                    break;
+                }
+            }
+        }
+    }
+}
+
+/// Finds the messages in the bytes from the editor.
+#[derive(Default)]
+struct Decoder {
+    buffer: Vec<u8>,
+    content_length: Option<usize>,
+}
+
+impl Decoder {
+    fn next_body(&mut self) -> Option<Vec<u8>> {
+        while self.content_length.is_none() {
+            let Some(end) = header_end(&self.buffer) else {
+                if self.buffer.len() > MAX_HEADER {
+                    warn!("Ignoring garbage from the editor");
+                    self.buffer.clear();
+                }
+                return None;
+            };
+            let header = &self.buffer[..end];
+            self.content_length = content_length(header);
+            let garbage = match self.content_length {
+                Some(_) => end,
+                // The header may come right after something else
+                None => header
+                    .windows(b"Content-Length".len())
+                    .skip(1)
+                    .position(|w| w == b"Content-Length")
+                    .map_or(end, |at| at + 1),
+            };
+            self.buffer.drain(..garbage);
+        }
+
+        let length = self.content_length.filter(|n| *n <= self.buffer.len())?;
+        self.content_length = None;
+        Some(self.buffer.drain(..length).collect())
+    }
+}
+
+/// Where the header ends: after an empty line.
+fn header_end(buffer: &[u8]) -> Option<usize> {
+    let mut start = 0;
+    loop {
+        let end = start + buffer[start..].iter().position(|b| *b == b'\n')? + 1;
+        if matches!(&buffer[start..end], b"\n" | b"\r\n") {
+            return Some(end);
+        }
+        start = end;
+    }
+}
+
+fn content_length(header: &[u8]) -> Option<usize> {
+    header.split(|b| *b == b'\n').find_map(|line| {
+        let (name, value) = str::from_utf8(line).ok()?.split_once(':')?;
+        name.trim()
+            .eq_ignore_ascii_case("Content-Length")
+            .then(|| value.trim().parse().ok())?
+    })
+}
+
+/// Turn the body of a message into something that tower-lsp understands.
+///
+/// A malformed request is turned into one that is answered with an error.
+fn check(body: &[u8]) -> Option<Value> {
+    let mut message: Value = match serde_json::from_slice(body) {
+        Ok(message) => message,
+        Err(e) => {
+            warn!(error = %e, "Message from the editor is not JSON");
+            return Some(invalid_request(Value::Null));
+        }
+    };
+    let Some(fields) = message.as_object_mut() else {
+        warn!("Message from the editor is not an object");
+        return Some(invalid_request(Value::Null));
+    };
+
+    let is_version_2 = fields.get("jsonrpc").is_some_and(|v| v == "2.0");
+    if fields.contains_key("result") || fields.contains_key("error") {
+        let is_valid = serde_json::from_value::<Response>(message.clone()).is_ok();
+        if !is_valid {
+            warn!("Ignoring malformed response from the editor");
+        }
+        return is_valid.then_some(message);
+    }
+
+    let id = fields.get("id").cloned();
+    let id_is_valid = match &id {
+        None | Some(Value::Null | Value::String(_)) => true,
+        Some(id) => id.is_i64(),
+    };
+    let method = fields.get("method").and_then(|v| v.as_str());
+    let is_valid = is_version_2 && id_is_valid && method.is_some();
+    match id {
+        // tower-lsp does not answer these if it does not know them
+        Some(id) if is_valid && method.is_some_and(|m| m.starts_with("$/")) => {
+            Some(invalid_request(id))
+        }
+        _ if is_valid => Some(message),
+        Some(id) => {
+            warn!("Malformed request from the editor");
+            Some(invalid_request(if id_is_valid { id } else { Value::Null }))
+        }
+        None => {
+            warn!("Ignoring malformed notification from the editor");
+            None
+        }
+    }
+}
+
+/// A request for a method that does not exist.
+fn invalid_request(id: Value) -> Value {
+    json!({ "jsonrpc": "2.0", "id": id, "method": "invalid request" })
+}
+
+/// Messages to the editor.
+pub(crate) struct Output<W> {
+    inner: W,
+    broken: bool,
+    session: Session,
+}
+
+impl<W> Output<W> {
+    /// Once the editor does not listen any more, the session is over.
+    fn poll_write_result<T>(
+        &mut self,
+        result: Poll<io::Result<T>>,
+        dropped: T,
+    ) -> Poll<io::Result<T>> {
+        match result {
+            Poll::Ready(Err(e)) => {
+                warn!(error = %e, "Failed to write to the editor");
+                self.broken = true;
+                self.session.end();
+                Poll::Ready(Ok(dropped))
+            }
+            result => result,
+        }
+    }
+}
+
+impl<W: AsyncWrite + Unpin> AsyncWrite for Output<W> {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        if self.broken {
+            return Poll::Ready(Ok(buf.len()));
+        }
+        let result = match Pin::new(&mut self.inner).poll_write(cx, buf) {
+            Poll::Ready(Ok(0)) if !buf.is_empty() => {
+                Poll::Ready(Err(io::ErrorKind::WriteZero.into()))
+            }
+            result => result,
+        };
+        self.poll_write_result(result, buf.len())
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.broken {
+            return Poll::Ready(Ok(()));
+        }
+        let result = Pin::new(&mut self.inner).poll_flush(cx);
+        self.poll_write_result(result, ())
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.broken {
+            return Poll::Ready(Ok(()));
+        }
+        let result = Pin::new(&mut self.inner).poll_shutdown(cx);
+        self.poll_write_result(result, ())
+    }
+}
-- 
2.43.0


From f0a1e19f4cb70b497b56aafb73e84f71c2df6299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:42 +0000
Subject: [PATCH 13/26] fix: positions count UTF-16 code units, and no offset
 or position makes the server panic

---
 crates/styx-lsp-ext/src/lib.rs         | 66 ++++++++++++++++++++-----
 crates/styx-lsp/src/extensions.rs      | 37 +++-----------
 crates/styx-lsp/src/semantic_tokens.rs | 49 +++++++------------
 crates/styx-lsp/src/server.rs          | 68 +++++++++-----------------
 4 files changed, 101 insertions(+), 119 deletions(-)

diff --git a/crates/styx-lsp-ext/src/lib.rs b/crates/styx-lsp-ext/src/lib.rs
index b8d03b9..ae2eed6 100644
--- a/crates/styx-lsp-ext/src/lib.rs
+++ b/crates/styx-lsp-ext/src/lib.rs
@@ -135,6 +135,9 @@ pub enum Capability {
 // =============================================================================
 
 /// A position in a document (0-indexed line and character).
+///
+/// As in the Language Server Protocol, characters are counted in UTF-16 code units, and lines end
+/// with `\n`, `\r\n` or `\r`.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Facet)]
 pub struct Position {
     pub line: u32,
@@ -152,24 +155,63 @@ impl Position {
     /// This is useful in `diagnostics()` where `DiagnosticParams` includes
     /// the document content, allowing offset→position conversion without
     /// an RPC call back to the host.
+    ///
+    /// An offset inside a character stands for its start, one past the end for the end.
     pub fn from_offset(content: &str, offset: u32) -> Self {
-        let offset = offset as usize;
-        if offset > content.len() {
-            // Past end of content - return last position
-            let line = content.chars().filter(|&c| c == '\n').count() as u32;
-            let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let character = (content.len() - last_newline) as u32;
-            return Self { line, character };
+        let mut offset = (offset as usize).min(content.len());
+        while !content.is_char_boundary(offset) {
+            offset -= 1;
         }
 
-        let before = &content[..offset];
-        let line = before.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-        Self { line, character }
+        let mut line = 0;
+        let mut start = 0;
+        let end = loop {
+            match find_line_end(content, start) {
+                Some((_, next)) if next <= offset => {
+                    line += 1;
+                    start = next;
+                }
+                Some((end, _)) => break end,
+                None => break content.len(),
+            }
+        };
+        let before = &content[start..offset.min(end)];
+        Self::new(line, before.encode_utf16().count() as u32)
+    }
+
+    /// Convert a position to a byte offset using document content.
+    ///
+    /// A character past the end of the line stands for its end. Returns `None` if there is no
+    /// such line.
+    pub fn to_offset(self, content: &str) -> Option<u32> {
+        let mut start = 0;
+        for _ in 0..self.line {
+            (_, start) = find_line_end(content, start)?;
+        }
+        let end = find_line_end(content, start).map_or(content.len(), |(end, _)| end);
+
+        let mut character = 0;
+        for (i, c) in content[start..end].char_indices() {
+            character += c.len_utf16();
+            if character > self.character as usize {
+                return Some((start + i) as u32);
+            }
+        }
+        Some(end as u32)
     }
 }
 
+/// Where the line that contains the given offset ends, and where the next one starts.
+fn find_line_end(content: &str, offset: usize) -> Option<(usize, usize)> {
+    let end = offset + content[offset..].find(['\n', '\r'])?;
+    let ending = if content[end..].starts_with("\r\n") {
+        2
+    } else {
+        1
+    };
+    Some((end, end + ending))
+}
+
 /// A range in a document.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Facet)]
 pub struct Range {
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 73d11cf..212a553 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -472,17 +472,14 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let offset = params.offset as usize;
-        if offset > doc.content.len() {
+        if !doc.content.is_char_boundary(params.offset as usize) {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-
-        Some(styx_lsp_ext::Position { line, character })
+        Some(styx_lsp_ext::Position::from_offset(
+            &doc.content,
+            params.offset,
+        ))
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -490,28 +487,6 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
-        }
-
-        None
+        params.position.to_offset(&doc.content)
     }
 }
diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..93afe4b 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -1,7 +1,10 @@
 //! Semantic token computation for syntax highlighting
 
 use styx_cst::{Parse, SyntaxKind, SyntaxNode, SyntaxToken};
-use tower_lsp::lsp_types::*;
+use styx_lsp_ext::Position;
+use tower_lsp::lsp_types::{
+    SemanticToken, SemanticTokenModifier, SemanticTokenType, SemanticTokensLegend,
+};
 
 /// Semantic token types we support
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -571,38 +574,22 @@ fn add_token_from_syntax(
     token_type: TokenType,
     modifiers: u32,
 ) {
-    let start: usize = token.text_range().start().into();
-    let end: usize = token.text_range().end().into();
-    let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
-
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
-}
-
-/// Convert byte offset to (line, column)
-fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
+    // Editors need not support tokens that span lines
+    let mut start: usize = token.text_range().start().into();
+    for part in token.text().split_inclusive(['\n', '\r']) {
+        let text = part.trim_end_matches(['\n', '\r']);
+        if !text.is_empty() {
+            let position = Position::from_offset(content, start as u32);
+            tokens.push(RawToken {
+                line: position.line,
+                start_char: position.character,
+                length: text.encode_utf16().count() as u32,
+                token_type,
+                modifiers,
+            });
         }
+        start += part.len();
     }
-
-    (line, col)
 }
 
 /// Encode raw tokens as LSP semantic tokens (delta-encoded)
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 458c50b..ad8ced0 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -304,9 +304,14 @@ impl StyxLanguageServer {
 
         // Phase 1: Parse errors from CST
         for error in parsed.errors() {
+            let start = error.offset as usize;
+            let char_len = content
+                .get(start..)
+                .and_then(|rest| rest.chars().next())
+                .map_or(0, char::len_utf8);
             let range = Range {
-                start: offset_to_position(content, error.offset as usize),
-                end: offset_to_position(content, error.offset as usize + 1),
+                start: offset_to_position(content, start),
+                end: offset_to_position(content, start + char_len),
             };
 
             diagnostics.push(Diagnostic {
@@ -1032,9 +1037,12 @@ impl LanguageServer for StyxLanguageServer {
         let word_info = get_word_range_at_position(&doc.content, position);
         let current_word = word_info.as_ref().map(|(w, _)| w.clone());
         // Range for text_edit - either replace the word being typed, or insert at cursor
-        let edit_range = word_info.map(|(_, r)| r).unwrap_or_else(|| Range {
-            start: position,
-            end: position,
+        let edit_range = word_info.map(|(_, r)| r).unwrap_or_else(|| {
+            let position = offset_to_position(&doc.content, offset);
+            Range {
+                start: position,
+                end: position,
+            }
         });
 
         // Filter out existing fields
@@ -2164,46 +2172,16 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
 
 /// Convert byte offset to LSP Position
 fn offset_to_position(content: &str, offset: usize) -> Position {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
-        }
-    }
-
-    Position::new(line, col)
+    let offset = offset.try_into().unwrap_or(u32::MAX);
+    let position = ext::Position::from_offset(content, offset);
+    Position::new(position.line, position.character)
 }
 
 /// Convert LSP Position to byte offset
 fn position_to_offset(content: &str, position: Position) -> usize {
-    let mut current_line = 0u32;
-    let mut current_col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
-            return i;
-        }
-        if ch == '\n' {
-            if current_line == position.line {
-                // Position is past end of line
-                return i;
-            }
-            current_line += 1;
-            current_col = 0;
-        } else {
-            current_col += 1;
-        }
-    }
-
-    content.len()
+    ext::Position::new(position.line, position.character)
+        .to_offset(content)
+        .map_or(content.len(), |offset| offset as usize)
 }
 
 /// Find the field key at a given offset in the tree (returns just the immediate field name)
@@ -3008,9 +2986,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
-        .unwrap_or(0);
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || matches!(c, '{' | '}' | '(' | ')' | ','))
+        .map_or(0, |(i, c)| i + c.len_utf8());
 
     let word = &before[word_start..];
     if word.is_empty() {
@@ -3020,7 +2998,7 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
         let start_position = offset_to_position(content, word_start);
         let range = Range {
             start: start_position,
-            end: position,
+            end: offset_to_position(content, offset),
         };
         Some((word.to_string(), range))
     }
-- 
2.43.0


From 2d2f45ca72b41a9a62beb08092e03569f1801576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:22 +0000
Subject: [PATCH 14/26] fix: the editor's edits change exactly what they
 announce

---
 crates/styx-lsp/src/edits.rs             | 449 +++++++++++++++++++++++
 crates/styx-lsp/src/lib.rs               |   1 +
 crates/styx-lsp/src/schema_validation.rs |   7 +-
 crates/styx-lsp/src/server.rs            | 326 +++-------------
 4 files changed, 499 insertions(+), 284 deletions(-)
 create mode 100644 crates/styx-lsp/src/edits.rs

diff --git a/crates/styx-lsp/src/edits.rs b/crates/styx-lsp/src/edits.rs
new file mode 100644
index 0000000..1fb16e0
--- /dev/null
+++ b/crates/styx-lsp/src/edits.rs
@@ -0,0 +1,449 @@
+//! Text edits the server offers.
+//!
+//! An edit changes exactly what it announces. Where that isn't possible it isn't offered.
+
+use styx_cst::{Parse, SyntaxKind, SyntaxNode, SyntaxToken, TokenAtOffset};
+use styx_tree::{Entry, Object, Payload, Span, Value};
+use tower_lsp::lsp_types::{FormattingOptions, Range, TextEdit};
+
+use crate::schema_validation::{SchemaField, generate_placeholder};
+use crate::server::{DocumentState, offset_to_position, position_to_offset};
+
+/// Spaces to indent with. No editor uses as many.
+const SPACES: &str = match std::str::from_utf8(&[b' '; 256]) {
+    Ok(spaces) => spaces,
+    Err(_) => unreachable!(),
+};
+
+/// What the editor indents with.
+pub fn indent_unit(options: &FormattingOptions) -> &'static str {
+    if options.insert_spaces {
+        &SPACES[..SPACES.len().min(options.tab_size as usize)]
+    } else {
+        "\t"
+    }
+}
+
+/// Write a key or value so that it is read back as the given text.
+pub fn scalar_text(text: &str) -> String {
+    if styx_format::can_be_bare(text) && is_one_scalar(text, text) {
+        return text.to_string();
+    }
+    format!("\"{}\"", styx_format::escape_quoted(text))
+}
+
+/// Whether the source is a key that means the given text.
+fn is_one_scalar(source: &str, text: &str) -> bool {
+    styx_tree::parse(source).is_ok_and(|tree| {
+        tree.as_object().is_some_and(|obj| {
+            obj.entries.len() == 1
+                && obj.entries[0].key.as_str() == Some(text)
+                && obj.entries[0].value.is_unit()
+        })
+    })
+}
+
+/// Set the indentation of the line that contains the given offset.
+pub fn indent_line(doc: &DocumentState, offset: usize, indent: String) -> Option<TextEdit> {
+    let content = &doc.content;
+    let start = content[..offset].rfind(['\n', '\r']).map_or(0, |i| i + 1);
+    let line = &content[start..];
+    let end = start + (line.len() - line.trim_start_matches([' ', '\t']).len());
+
+    // The content of a multi-line value is not ours to change
+    if in_multiline_value(&doc.parse, start) || content[start..end] == indent {
+        return None;
+    }
+    Some(replace(content, start, end, indent))
+}
+
+/// Whether a line that starts at the given offset belongs to a scalar or heredoc.
+fn in_multiline_value(parse: &Parse, line_start: usize) -> bool {
+    let Ok(offset) = u32::try_from(line_start) else {
+        return true;
+    };
+    match parse.syntax().token_at_offset(offset.into()) {
+        TokenAtOffset::None => false,
+        TokenAtOffset::Single(token) => {
+            u32::from(token.text_range().start()) < offset
+                && u32::from(token.text_range().end()) > offset
+                && !matches!(token.kind(), SyntaxKind::WHITESPACE | SyntaxKind::NEWLINE)
+        }
+        TokenAtOffset::Between(left, right) => {
+            let in_heredoc = |token: &SyntaxToken| {
+                matches!(
+                    token.kind(),
+                    SyntaxKind::HEREDOC_START | SyntaxKind::HEREDOC_CONTENT
+                )
+            };
+            in_heredoc(&left) || in_heredoc(&right)
+        }
+    }
+}
+
+/// Add a schema declaration to a document without one.
+pub fn add_schema_declaration(doc: &DocumentState, declaration: &str) -> Option<TextEdit> {
+    let content = &doc.content;
+    let added = styx_tree::parse(declaration).ok()?;
+    let added = &added.as_object()?.entries;
+    if added.len() != 1 || !added[0].key.is_schema_tag() {
+        return None;
+    }
+
+    let mut expected = doc.tree.clone()?;
+    let Some(Payload::Object(root)) = &mut expected.payload else {
+        return None;
+    };
+    if root.entries.iter().any(|e| e.key.is_schema_tag()) {
+        return None;
+    }
+    root.entries.splice(0..0, added.iter().cloned());
+
+    let newline = line_ending(content);
+    let (offset, text) = match explicit_root(&doc.parse) {
+        None => (0, format!("{declaration}{newline}{newline}")),
+        Some(node) => {
+            let offset = usize::from(node.text_range().start()) + 1;
+            match ObjectStyle::of(&node) {
+                ObjectStyle::Lines => (offset, format!("{newline}{declaration}")),
+                ObjectStyle::Commas if root.entries.len() == 1 => (offset, declaration.to_string()),
+                ObjectStyle::Commas => (offset, format!("{declaration}, ")),
+            }
+        }
+    };
+    checked(content, offset, offset, text, &expected)
+}
+
+/// Replace the name of a field.
+pub fn rename_field(doc: &DocumentState, range: Range, from: &str, to: &str) -> Option<TextEdit> {
+    let start = position_to_offset(&doc.content, range.start);
+    let end = position_to_offset(&doc.content, range.end);
+
+    // It may have been changed since the problem was reported
+    let mut expected = doc.tree.clone()?;
+    let object = find_object(&mut expected, &|object| {
+        object.entries.iter().any(|e| {
+            e.key.as_str() == Some(from)
+                && e.key
+                    .span
+                    .is_some_and(|s| (s.start as usize, s.end as usize) == (start, end))
+        })
+    })?;
+    if object.entries.iter().any(|e| e.key.as_str() == Some(to)) {
+        return None;
+    }
+    for entry in &mut object.entries {
+        if entry.key.span.is_some_and(|s| s.start as usize == start)
+            && let Some(Payload::Scalar(scalar)) = &mut entry.key.payload
+        {
+            scalar.text = to.to_string();
+        }
+    }
+    checked(&doc.content, start, end, scalar_text(to), &expected)
+}
+
+/// Add fields to the object with the given span, or to the root object.
+pub fn fill_fields(
+    doc: &DocumentState,
+    object_span: Option<Span>,
+    fields: &[&SchemaField],
+) -> Option<TextEdit> {
+    if fields.is_empty() {
+        return None;
+    }
+    let content = &doc.content;
+    let lines: Vec<String> = fields
+        .iter()
+        .map(|field| {
+            let name = scalar_text(&field.name);
+            // Use default value if available, otherwise generate placeholder
+            let line = match &field.default_value {
+                Some(value) => format!("{name} {value}"),
+                None => format!("{name} {}", generate_placeholder(&field.schema)),
+            };
+            match &field.default_value {
+                // The default is text that was quoted in the schema
+                Some(value) if styx_tree::parse(&line).is_err() => {
+                    format!("{name} {}", scalar_text(value))
+                }
+                _ => line,
+            }
+        })
+        .collect();
+
+    let mut expected = doc.tree.clone()?;
+    let object = find_object(&mut expected, &|object| object.span == object_span)?;
+    let last_end = object.entries.last().map(entry_end);
+    let last_start = object.entries.last().and_then(|e| e.key.span);
+    let added = styx_tree::parse(&lines.join("\n")).ok()?;
+    let added = added.as_object()?;
+    if added.entries.len() != fields.len() {
+        return None;
+    }
+    object.entries.extend(added.entries.iter().cloned());
+
+    let node = match object_span {
+        None => explicit_root(&doc.parse).unwrap_or_else(|| doc.parse.syntax()),
+        Some(span) => doc.parse.syntax().descendants().find(|node| {
+            node.kind() == SyntaxKind::OBJECT
+                && u32::from(node.text_range().start()) == span.start
+                && u32::from(node.text_range().end()) == span.end
+        })?,
+    };
+    let newline = line_ending(content);
+    // Where the braces are, if there are any
+    let (inner_start, inner_end) = match node.kind() {
+        SyntaxKind::OBJECT => (
+            usize::from(node.text_range().start()) + 1,
+            usize::from(node.text_range().end()) - 1,
+        ),
+        _ => (0, content.len()),
+    };
+
+    let (offset, text) = match (ObjectStyle::of(&node), last_end) {
+        (ObjectStyle::Commas, None) => (inner_start, lines.join(", ")),
+        (ObjectStyle::Commas, Some(end)) => (end, format!(", {}", lines.join(", "))),
+        (ObjectStyle::Lines, None) => {
+            // Only comments and empty lines: add the fields as the last lines
+            let indent = indentation(content, inner_end);
+            let text = lines
+                .iter()
+                .map(|line| format!("{indent}    {line}{newline}"))
+                .collect();
+            (inner_end - indent.len(), text)
+        }
+        (ObjectStyle::Lines, Some(end)) => {
+            // A comment on the same line belongs to the last entry
+            let rest = &content[end..inner_end];
+            let rest = &rest[..rest.find(['\n', '\r']).unwrap_or(rest.len())];
+            let comment = rest.trim_end();
+            let offset = if comment.trim_start().starts_with("//") {
+                end + comment.len()
+            } else {
+                end
+            };
+            let indent = indentation(content, last_start?.start as usize);
+            let text = lines
+                .iter()
+                .map(|line| format!("{newline}{indent}{line}"))
+                .collect();
+            (offset, text)
+        }
+    };
+    checked(content, offset, offset, text, &expected)
+}
+
+/// Put the root fields into the given order, each with the comments before it. The schema
+/// declaration comes first, unknown fields last.
+pub fn reorder_fields(doc: &DocumentState, order: &[String]) -> Option<TextEdit> {
+    let content = &doc.content;
+    let mut expected = doc.tree.clone()?;
+    let Some(Payload::Object(root)) = &mut expected.payload else {
+        return None;
+    };
+    if explicit_root(&doc.parse).is_some() {
+        return None;
+    }
+
+    let rank = |entry: &Entry| match entry.key.as_str() {
+        _ if entry.key.is_schema_tag() => 0,
+        Some(name) => order
+            .iter()
+            .position(|field| field == name)
+            .map_or(usize::MAX, |i| i + 1),
+        None => usize::MAX,
+    };
+    if root.entries.is_sorted_by_key(rank) {
+        return None; // Already in order
+    }
+
+    // Whole lines move: those of an entry, and those before it
+    let mut start = after_header(content, root.entries.first()?.key.span?.start as usize);
+    let header = &content[..start];
+    let mut parts = Vec::new();
+    for entry in &root.entries {
+        let key_start = entry.key.span?.start as usize;
+        let end = entry_end(entry);
+        if key_start < start {
+            return None; // Several entries on a line
+        }
+        let next = content[end..]
+            .find('\n')
+            .map_or(content.len(), |i| end + i + 1);
+        parts.push((rank(entry), &content[start..next]));
+        start = next;
+    }
+    let footer = &content[start..];
+
+    let newline = line_ending(content);
+    let ended = content.ends_with('\n');
+    parts.sort_by_key(|(rank, _)| *rank);
+    root.entries.sort_by_key(rank);
+    let mut new_content = header.to_string();
+    for (_, text) in parts {
+        new_content.push_str(text);
+        if !text.ends_with('\n') {
+            new_content.push_str(newline);
+        }
+    }
+    new_content.push_str(footer);
+    if !ended && new_content.ends_with(newline) {
+        new_content.truncate(new_content.len() - newline.len());
+    }
+    checked(content, 0, content.len(), new_content, &expected)
+}
+
+/// The end of the comments at the start of the document that don't belong to the first entry.
+fn after_header(content: &str, first_entry: usize) -> usize {
+    let mut end = 0;
+    let mut start = 0;
+    for line in content[..first_entry].split_inclusive('\n') {
+        start += line.len();
+        if line.trim().is_empty() && line.ends_with('\n') {
+            end = start;
+        }
+    }
+    end
+}
+
+/// How the entries of an object are separated.
+enum ObjectStyle {
+    Lines,
+    Commas,
+}
+
+impl ObjectStyle {
+    fn of(node: &SyntaxNode) -> Self {
+        let mut lines = node.kind() != SyntaxKind::OBJECT;
+        for token in node
+            .descendants_with_tokens()
+            .filter_map(|element| element.into_token())
+            .filter(|token| container(token).as_ref() == Some(node))
+        {
+            match token.kind() {
+                SyntaxKind::COMMA => return Self::Commas,
+                SyntaxKind::NEWLINE => lines = true,
+                _ => {}
+            }
+        }
+        if lines { Self::Lines } else { Self::Commas }
+    }
+}
+
+/// The object, sequence or document directly around a token.
+fn container(token: &SyntaxToken) -> Option<SyntaxNode> {
+    token.parent_ancestors().find(|node| {
+        matches!(
+            node.kind(),
+            SyntaxKind::OBJECT | SyntaxKind::SEQUENCE | SyntaxKind::DOCUMENT
+        )
+    })
+}
+
+/// The root object, if it has braces.
+fn explicit_root(parse: &Parse) -> Option<SyntaxNode> {
+    let root = parse.syntax();
+    let brace = root
+        .descendants_with_tokens()
+        .filter_map(|element| element.into_token())
+        .find(|token| !token.kind().is_trivia() && token.kind() != SyntaxKind::DOC_COMMENT)
+        .filter(|token| token.kind() == SyntaxKind::L_BRACE)?;
+    container(&brace)
+}
+
+/// The white space before an offset, if there is nothing else before it on the line.
+fn indentation(content: &str, offset: usize) -> &str {
+    let line_start = content[..offset].rfind('\n').map_or(0, |i| i + 1);
+    let line = &content[line_start..offset];
+    &line[..line.len() - line.trim_start_matches([' ', '\t']).len()]
+}
+
+fn line_ending(content: &str) -> &'static str {
+    if content.contains("\r\n") {
+        "\r\n"
+    } else {
+        "\n"
+    }
+}
+
+/// Where an entry ends. The span of the object that a dotted key stands for covers only the key.
+fn entry_end(entry: &Entry) -> usize {
+    fn value_end(value: &Value) -> usize {
+        let end = value.span.map_or(0, |span| span.end as usize);
+        match &value.payload {
+            Some(Payload::Object(object)) => object.entries.iter().map(entry_end).max(),
+            Some(Payload::Sequence(sequence)) => sequence.items.iter().map(value_end).max(),
+            _ => None,
+        }
+        .map_or(end, |inner| inner.max(end))
+    }
+    value_end(&entry.key).max(value_end(&entry.value))
+}
+
+/// Find an object in a tree.
+fn find_object<'a>(
+    value: &'a mut Value,
+    matches: &dyn Fn(&Object) -> bool,
+) -> Option<&'a mut Object> {
+    match &mut value.payload {
+        Some(Payload::Object(object)) => {
+            if matches(object) {
+                return Some(object);
+            }
+            object
+                .entries
+                .iter_mut()
+                .find_map(|entry| find_object(&mut entry.value, matches))
+        }
+        Some(Payload::Sequence(sequence)) => sequence
+            .items
+            .iter_mut()
+            .find_map(|item| find_object(item, matches)),
+        _ => None,
+    }
+}
+
+fn replace(content: &str, start: usize, end: usize, new_text: String) -> TextEdit {
+    TextEdit {
+        range: Range {
+            start: offset_to_position(content, start),
+            end: offset_to_position(content, end),
+        },
+        new_text,
+    }
+}
+
+/// An edit that leads to the expected document.
+fn checked(
+    content: &str,
+    start: usize,
+    end: usize,
+    new_text: String,
+    expected: &Value,
+) -> Option<TextEdit> {
+    let result = format!("{}{}{}", &content[..start], new_text, &content[end..]);
+    let tree = styx_tree::parse(&result).ok()?;
+    same_value(&tree, expected).then(|| replace(content, start, end, new_text))
+}
+
+/// Whether two values have the same meaning.
+fn same_value(a: &Value, b: &Value) -> bool {
+    a.tag_name() == b.tag_name()
+        && match (&a.payload, &b.payload) {
+            (None, None) => true,
+            (Some(Payload::Scalar(a)), Some(Payload::Scalar(b))) => a.text == b.text,
+            (Some(Payload::Sequence(a)), Some(Payload::Sequence(b))) => {
+                a.items.len() == b.items.len()
+                    && a.items.iter().zip(&b.items).all(|(a, b)| same_value(a, b))
+            }
+            (Some(Payload::Object(a)), Some(Payload::Object(b))) => {
+                a.entries.len() == b.entries.len()
+                    && a.entries.iter().zip(&b.entries).all(|(a, b)| {
+                        same_value(&a.key, &b.key)
+                            && same_value(&a.value, &b.value)
+                            && a.doc_comment == b.doc_comment
+                    })
+            }
+            _ => false,
+        }
+}
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index a124b5f..c06777a 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -14,6 +14,7 @@
 pub mod atomic_file;
 pub mod cache;
 pub mod config;
+mod edits;
 pub mod extensions;
 pub mod schema_hints;
 mod schema_validation;
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 85aabd5..e8d797a 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -312,8 +312,6 @@ pub fn find_value_by_path<'a>(value: &'a Value, path: &str) -> Option<&'a Value>
         return Some(value);
     }
 
-    let obj = value.as_object()?;
-
     // Split path on first dot
     let (segment, rest) = match path.find('.') {
         Some(pos) => (&path[..pos], &path[pos + 1..]),
@@ -329,6 +327,7 @@ pub fn find_value_by_path<'a>(value: &'a Value, path: &str) -> Option<&'a Value>
     }
 
     // Find the entry with matching key
+    let obj = value.as_object()?;
     for entry in &obj.entries {
         if let Some(key_str) = entry.key.as_str()
             && key_str == segment
@@ -423,7 +422,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         Schema::Bool => "false".to_string(),
         Schema::Unit => "@".to_string(),
         Schema::Any => "@".to_string(),
-        Schema::Seq(_) => "[]".to_string(),
+        Schema::Seq(_) => "()".to_string(),
         Schema::Map(_) => "{}".to_string(),
         Schema::Object(_) => "{}".to_string(),
         Schema::Optional(opt) => generate_placeholder(&opt.0.0.value),
@@ -448,7 +447,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
                 .unwrap_or_else(|| generate_placeholder(&o.0.0.value))
         }
         Schema::Flatten(f) => generate_placeholder(&f.0.0.value),
-        Schema::Literal(lit) => lit.clone(),
+        Schema::Literal(lit) => crate::edits::scalar_text(lit),
         Schema::Type { name } => name
             .as_ref()
             .map(|n| format!("@{}", n))
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index ad8ced0..84459e9 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -11,6 +11,7 @@ use tower_lsp::jsonrpc::{Error, Result};
 use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
+use crate::edits;
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info, reply};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
@@ -1135,7 +1136,7 @@ impl LanguageServer for StyxLanguageServer {
                     detail: Some(type_str),
                     text_edit: Some(CompletionTextEdit::Edit(TextEdit {
                         range: edit_range,
-                        new_text: format!("{} ", name),
+                        new_text: format!("{} ", edits::scalar_text(&name)),
                     })),
                     filter_text: Some(name.clone()),
                     sort_text: Some(if is_optional {
@@ -1191,6 +1192,9 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document.uri;
         let mut actions = Vec::new();
 
+        // No lock may be held while an extension is asked, it may call back
+        let docs = self.documents.read().await.clone();
+
         // Process each diagnostic to generate code actions (quickfixes)
         for diag in &params.context.diagnostics {
             // Handle schema hint diagnostics (add @schema declaration)
@@ -1206,15 +1210,10 @@ impl LanguageServer for StyxLanguageServer {
                         .unwrap_or("schema");
 
                     // Action 1: Add the suggested schema declaration
+                    if let Some(edit) = docs
+                        .get(&uri)
+                        .and_then(|doc| edits::add_schema_declaration(doc, declaration))
                     {
-                        let edit = TextEdit {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
-                            },
-                            new_text: format!("{}\n\n", declaration),
-                        };
-
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![edit]);
 
@@ -1232,15 +1231,10 @@ impl LanguageServer for StyxLanguageServer {
                     }
 
                     // Action 2: Stop reminding (insert @schema @ to explicitly disable)
+                    if let Some(edit) = docs
+                        .get(&uri)
+                        .and_then(|doc| edits::add_schema_declaration(doc, "@schema @"))
                     {
-                        let edit = TextEdit {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
-                            },
-                            new_text: "@schema @\n\n".to_string(),
-                        };
-
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![edit]);
 
@@ -1299,13 +1293,10 @@ impl LanguageServer for StyxLanguageServer {
                     data.get("from").and_then(|v| v.as_str()),
                     data.get("to").and_then(|v| v.as_str()),
                 )
+                && let Some(edit) = docs
+                    .get(&uri)
+                    .and_then(|doc| edits::rename_field(doc, diag.range, from, to))
             {
-                // Create a text edit to rename the field
-                let edit = TextEdit {
-                    range: diag.range,
-                    new_text: to.to_string(),
-                };
-
                 let mut changes = std::collections::HashMap::new();
                 changes.insert(uri.clone(), vec![edit]);
 
@@ -1324,8 +1315,6 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        // (no lock may be held while it is asked, it may call back)
-        let docs = self.documents.read().await.clone();
         if let Some(doc) = docs.get(&uri)
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
@@ -1488,43 +1477,9 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| f.optional && !existing_fields.contains(&f.name))
                     .collect();
 
-                // Find insert position and indentation within the current object
-                let insert_info = if let Some(ref ctx) = object_ctx {
-                    if let Some(span) = ctx.span {
-                        // Find insertion point within this object
-                        let obj_content = &doc.content[span.start as usize..span.end as usize];
-                        let obj_insert = find_field_insert_position(obj_content);
-                        // Adjust position to be relative to document start
-                        let obj_start_pos = offset_to_position(&doc.content, span.start as usize);
-                        InsertPosition {
-                            position: Position {
-                                line: obj_start_pos.line + obj_insert.position.line,
-                                character: if obj_insert.position.line == 0 {
-                                    obj_start_pos.character + obj_insert.position.character
-                                } else {
-                                    obj_insert.position.character
-                                },
-                            },
-                            indent: obj_insert.indent,
-                        }
-                    } else {
-                        find_field_insert_position(&doc.content)
-                    }
-                } else {
-                    find_field_insert_position(&doc.content)
-                };
-
                 // Action: Fill required fields
-                if !missing_required.is_empty() {
-                    let new_text = generate_fields_text(&missing_required, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
-
+                let object_span = object_ctx.as_ref().and_then(|ctx| ctx.span);
+                if let Some(edit) = edits::fill_fields(doc, object_span, &missing_required) {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1550,16 +1505,9 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| !existing_fields.contains(&f.name))
                     .collect();
 
-                if !all_missing.is_empty() && !missing_optional.is_empty() {
-                    let new_text = generate_fields_text(&all_missing, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
-
+                if !missing_optional.is_empty()
+                    && let Some(edit) = edits::fill_fields(doc, object_span, &all_missing)
+                {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1585,10 +1533,10 @@ impl LanguageServer for StyxLanguageServer {
                     .map(|c| c.path.is_empty())
                     .unwrap_or(true)
                 {
-                    let root_fields = get_schema_fields(&schema_file);
-                    if let Some(reorder_edit) =
-                        generate_reorder_edit(tree, &root_fields, &doc.content)
-                    {
+                    let root_fields = resolve_schema(tree, &uri)
+                        .map(|schema| get_schema_field_order(&schema.source))
+                        .unwrap_or_default();
+                    if let Some(reorder_edit) = edits::reorder_fields(doc, &root_fields) {
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![reorder_edit]);
 
@@ -1894,19 +1842,9 @@ impl LanguageServer for StyxLanguageServer {
             return Ok(None);
         }
 
-        // Build indent string from editor preferences
-        let indent = if params.options.insert_spaces {
-            " ".repeat(params.options.tab_size as usize)
-        } else {
-            "\t".to_string()
-        };
-
         // Format the document using CST formatter (preserves comments)
-        let options = styx_format::FormatOptions::default().indent(
-            // Leak the string since FormatOptions expects &'static str
-            // This is fine since we're not going to format millions of times
-            Box::leak(indent.into_boxed_str()),
-        );
+        let options =
+            styx_format::FormatOptions::default().indent(edits::indent_unit(&params.options));
 
         let formatted = styx_format::format_source(&doc.content, options);
 
@@ -1916,20 +1854,10 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
-                start: Position {
-                    line: 0,
-                    character: 0,
-                },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                start: Position::new(0, 0),
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
@@ -1982,30 +1910,10 @@ impl LanguageServer for StyxLanguageServer {
         // Find the nesting depth at this offset using the CST
         let depth = find_nesting_depth_cst(&doc.parse, offset);
 
-        // Build indent string from editor preferences
-        let indent_unit = if params.options.insert_spaces {
-            " ".repeat(params.options.tab_size as usize)
-        } else {
-            "\t".to_string()
-        };
-
-        // Build the indentation string based on nesting depth
-        let indent_str = indent_unit.repeat(depth);
+        // Build the indentation string based on nesting depth and editor preferences
+        let indent_str = edits::indent_unit(&params.options).repeat(depth);
 
-        // Insert indentation at the start of the current line
-        Ok(Some(vec![TextEdit {
-            range: Range {
-                start: Position {
-                    line: position.line,
-                    character: 0,
-                },
-                end: Position {
-                    line: position.line,
-                    character: 0,
-                },
-            },
-            new_text: indent_str,
-        }]))
+        Ok(edits::indent_line(doc, offset, indent_str).map(|edit| vec![edit]))
     }
 }
 
@@ -2171,14 +2079,14 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
 }
 
 /// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let offset = offset.try_into().unwrap_or(u32::MAX);
     let position = ext::Position::from_offset(content, offset);
     Position::new(position.line, position.character)
 }
 
 /// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     ext::Position::new(position.line, position.character)
         .to_offset(content)
         .map_or(content.len(), |offset| offset as usize)
@@ -2960,6 +2868,20 @@ fn collect_fields_from_object(value: &Value, source: &str, fields: &mut Vec<(Str
     }
 }
 
+/// Get the names of the root fields in the order in which the schema lists them.
+fn get_schema_field_order(schema_source: &str) -> Vec<String> {
+    let mut fields = Vec::new();
+    if let Ok(tree) = styx_tree::parse(schema_source)
+        && let Some(schema) = tree.as_object().and_then(|obj| obj.get("schema"))
+        && let Some(schema_defs) = schema.as_object()
+        && let Some(root) = schema_defs.get_unit()
+    {
+        let root = resolve_type_reference(root, schema_defs);
+        collect_fields_from_object(root, schema_source, &mut fields);
+    }
+    fields.into_iter().map(|(name, _)| name).collect()
+}
+
 /// Get existing field names in a document
 fn get_existing_fields(tree: &Value) -> Vec<String> {
     let mut fields = Vec::new();
@@ -3213,162 +3135,6 @@ fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Ra
     None
 }
 
-/// Info about where to insert new fields
-struct InsertPosition {
-    position: Position,
-    indent: String,
-}
-
-/// Find the position where new fields should be inserted and the indentation to use.
-fn find_field_insert_position(content: &str) -> InsertPosition {
-    let lines: Vec<&str> = content.lines().collect();
-
-    // Find the last non-empty, non-comment line
-    for (i, line) in lines.iter().enumerate().rev() {
-        let trimmed = line.trim();
-        if !trimmed.is_empty() && !trimmed.starts_with("//") && !trimmed.starts_with('#') {
-            // Detect indentation from this line
-            let indent_len = line.len() - line.trim_start().len();
-            let indent = line[..indent_len].to_string();
-
-            return InsertPosition {
-                position: Position {
-                    line: i as u32,
-                    character: line.len() as u32,
-                },
-                indent,
-            };
-        }
-    }
-
-    // Fallback: end of document, no indentation
-    InsertPosition {
-        position: Position {
-            line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
-        },
-        indent: String::new(),
-    }
-}
-
-/// Generate text for inserting missing fields.
-fn generate_fields_text(fields: &[&crate::schema_validation::SchemaField], indent: &str) -> String {
-    use crate::schema_validation::generate_placeholder;
-
-    let mut result = String::new();
-
-    for field in fields {
-        result.push('\n');
-        result.push_str(indent);
-        result.push_str(&field.name);
-        result.push(' ');
-
-        // Use default value if available, otherwise generate placeholder
-        let value = field
-            .default_value
-            .clone()
-            .unwrap_or_else(|| generate_placeholder(&field.schema));
-        result.push_str(&value);
-    }
-
-    result
-}
-
-/// Generate a text edit to reorder fields to match schema order.
-/// Returns None if the fields are already in order or can't be reordered.
-fn generate_reorder_edit(
-    tree: &Value,
-    schema_fields: &[crate::schema_validation::SchemaField],
-    content: &str,
-) -> Option<TextEdit> {
-    let obj = tree.as_object()?;
-
-    // Build schema field order map
-    let schema_order: std::collections::HashMap<&str, usize> = schema_fields
-        .iter()
-        .enumerate()
-        .map(|(i, f)| (f.name.as_str(), i))
-        .collect();
-
-    // Collect document entries with their positions
-    let mut doc_entries: Vec<(Option<usize>, &styx_tree::Entry)> = obj
-        .entries
-        .iter()
-        .map(|e| {
-            let order = e
-                .key
-                .as_str()
-                .and_then(|name| schema_order.get(name).copied());
-            (order, e)
-        })
-        .collect();
-
-    // Check if already in order
-    let current_order: Vec<Option<usize>> = doc_entries.iter().map(|(o, _)| *o).collect();
-    let mut sorted_order = current_order.clone();
-    sorted_order.sort_by(|a, b| match (a, b) {
-        (Some(x), Some(y)) => x.cmp(y),
-        (Some(_), None) => std::cmp::Ordering::Less,
-        (None, Some(_)) => std::cmp::Ordering::Greater,
-        (None, None) => std::cmp::Ordering::Equal,
-    });
-
-    if current_order == sorted_order {
-        return None; // Already in order
-    }
-
-    // Sort entries by schema order (keep @ declaration first, unknowns last)
-    doc_entries.sort_by(|(a_order, a_entry), (b_order, b_entry)| {
-        // @ declaration always first
-        if a_entry.key.is_unit() {
-            return std::cmp::Ordering::Less;
-        }
-        if b_entry.key.is_unit() {
-            return std::cmp::Ordering::Greater;
-        }
-        // Then by schema order
-        match (a_order, b_order) {
-            (Some(x), Some(y)) => x.cmp(y),
-            (Some(_), None) => std::cmp::Ordering::Less,
-            (None, Some(_)) => std::cmp::Ordering::Greater,
-            (None, None) => std::cmp::Ordering::Equal,
-        }
-    });
-
-    // Regenerate the document content, preserving original entry text
-    let mut new_content = String::new();
-
-    for (i, (_, entry)) in doc_entries.iter().enumerate() {
-        if i > 0 {
-            new_content.push('\n');
-        }
-
-        // Get the full entry text from the original source (key + value)
-        // by using the key's start and value's end
-        if let (Some(key_span), Some(val_span)) = (entry.key.span, entry.value.span) {
-            // Find the start of the line to preserve indentation
-            let key_start = key_span.start as usize;
-            let line_start = content[..key_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let indent = &content[line_start..key_start];
-
-            new_content.push_str(indent);
-            new_content.push_str(&content[key_start..val_span.end as usize]);
-        }
-    }
-
-    // Find the range of the entire document content (excluding leading/trailing whitespace)
-    let start_offset = obj.span?.start as usize;
-    let end_offset = obj.span?.end as usize;
-
-    Some(TextEdit {
-        range: Range {
-            start: offset_to_position(content, start_offset),
-            end: offset_to_position(content, end_offset),
-        },
-        new_text: new_content,
-    })
-}
-
 /// All documents, always in the same order.
 fn in_order(docs: &HashMap<Url, DocumentState>) -> Vec<(&Url, &DocumentState)> {
     let mut docs: Vec<_> = docs.iter().collect();
-- 
2.43.0


From 6b0643258b7ed74ba2114d3e42427b612ed161a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:22 +0000
Subject: [PATCH 15/26] fix: a schema type that refers to itself no longer
 overflows the stack

---
 crates/facet-styx/src/schema_validate.rs | 28 +++++++-
 crates/styx-lsp/src/schema_validation.rs | 85 +++++++++++++++---------
 crates/styx-lsp/src/server.rs            | 33 ++++++---
 3 files changed, 100 insertions(+), 46 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 895e7e9..dc4d475 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::HashSet;
 
 use styx_tree::{Payload, Value};
@@ -68,12 +69,17 @@ use crate::schema_types::{
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
     schema_file: &'a SchemaFile,
+    /// Values being validated against named types.
+    in_progress: RefCell<Vec<(*const Value, String)>>,
 }
 
 impl<'a> Validator<'a> {
     /// Create a new validator with the given schema.
     pub fn new(schema_file: &'a SchemaFile) -> Self {
-        Self { schema_file }
+        Self {
+            schema_file,
+            in_progress: RefCell::default(),
+        }
     }
 
     /// Validate a document against the schema's root type.
@@ -799,7 +805,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let mut expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
@@ -1075,8 +1081,24 @@ impl<'a> Validator<'a> {
             }
             Some(name) => {
                 // Named type reference - look up in schema
-                if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
+                let this = (std::ptr::from_ref(value), name.to_string());
+                if self.in_progress.borrow().contains(&this) {
+                    result.error(
+                        ValidationError::new(
+                            path,
+                            ValidationErrorKind::SchemaError {
+                                reason: format!("type '{name}' is defined by itself"),
+                            },
+                            format!("invalid schema: type '{name}' is defined by itself"),
+                        )
+                        .with_span(value.span),
+                    );
+                } else if let Some(type_schema) =
+                    self.schema_file.schema.get(&Some(name.to_string()))
+                {
+                    self.in_progress.borrow_mut().push(this);
                     result.merge(self.validate_value(value, type_schema, path));
+                    self.in_progress.borrow_mut().pop();
                 } else {
                     result.error(
                         ValidationError::new(
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index e8d797a..80f2f5c 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -354,12 +354,18 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
         return fields;
     };
 
-    collect_object_fields(root_schema, schema_file, &mut fields);
+    collect_object_fields(root_schema, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
 /// Recursively collect fields from a schema, handling wrappers like @object.
-fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
+/// `seen` holds the types that have led here, they may refer to themselves.
+fn collect_object_fields(
+    schema: &Schema,
+    schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
+    fields: &mut Vec<SchemaField>,
+) {
     match schema {
         Schema::Object(obj) => {
             // The schema is a hash map: list its fields in a fixed order
@@ -381,15 +387,17 @@ fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut
             }
         }
         Schema::Flatten(flatten) => {
-            collect_object_fields(&flatten.0.0, schema_file, fields);
+            collect_object_fields(&flatten.0.0, schema_file, seen, fields);
         }
         Schema::Type {
             name: Some(type_name),
         } => {
             // Resolve the type reference and collect its fields
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                let resolved = resolve_type_reference(type_schema, schema_file);
-                collect_object_fields(&resolved, schema_file, fields);
+            if !seen.contains(type_name)
+                && let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone()))
+            {
+                seen.push(type_name.clone());
+                collect_object_fields(type_schema, schema_file, seen, fields);
             }
         }
         _ => {}
@@ -609,13 +617,16 @@ fn find_object_at_offset_recursive(
 /// Get the schema for a given path within a schema file.
 pub fn get_schema_at_path(schema_file: &SchemaFile, path: &[String]) -> Option<Schema> {
     let root_schema = schema_file.schema.get(&None)?;
-    get_schema_at_path_recursive(root_schema, path, schema_file)
+    get_schema_at_path_recursive(root_schema, path, schema_file, &mut Vec::new())
 }
 
+/// `seen` holds the types that have led here without a step along the path, they may refer to
+/// themselves.
 fn get_schema_at_path_recursive(
     schema: &Schema,
     path: &[String],
     schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
 ) -> Option<Schema> {
     if path.is_empty() {
         return Some(schema.clone());
@@ -631,7 +642,12 @@ fn get_schema_at_path_recursive(
                 .0
                 .get(&Documented::new(ObjectKey::named(field_name.clone())))
             {
-                return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                return get_schema_at_path_recursive(
+                    field_schema,
+                    rest,
+                    schema_file,
+                    &mut Vec::new(),
+                );
             }
 
             // Try catch-all keys (like @string or @)
@@ -643,7 +659,7 @@ fn get_schema_at_path_recursive(
                 .iter()
                 .filter(|(key, _)| key.value.value.is_none() && key.value.tag.is_some())
                 .min_by_key(|(key, _)| key.value.tag.as_deref())?;
-            get_schema_at_path_recursive(field_schema, rest, schema_file)
+            get_schema_at_path_recursive(field_schema, rest, schema_file, &mut Vec::new())
         }
         Schema::Enum(enum_schema) => {
             // Check if field_name is a tag reference like "@query"
@@ -653,7 +669,12 @@ fn get_schema_at_path_recursive(
                     .0
                     .get(&Documented::new(variant_name.to_string()))
                 {
-                    return get_schema_at_path_recursive(variant_schema, rest, schema_file);
+                    return get_schema_at_path_recursive(
+                        variant_schema,
+                        rest,
+                        schema_file,
+                        &mut Vec::new(),
+                    );
                 }
             }
             None
@@ -662,21 +683,21 @@ fn get_schema_at_path_recursive(
             // For @map(@V) or @map(@K @V), any key navigates to the value type.
             // If 1 element: that's the value type (key defaults to @string).
             // If 2 elements: first is key type, second is value type.
-            let value_schema = if map_schema.0.len() == 1 {
-                &map_schema.0[0].value
-            } else {
-                &map_schema.0[1].value
-            };
-            get_schema_at_path_recursive(value_schema, rest, schema_file)
+            let value_schema = &map_schema.0.get(1).or(map_schema.0.first())?.value;
+            get_schema_at_path_recursive(value_schema, rest, schema_file, &mut Vec::new())
         }
-        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file),
-        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file),
-        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file),
+        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file, seen),
+        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file, seen),
+        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file, seen),
         Schema::Type {
             name: Some(type_name),
         } => {
+            if seen.contains(type_name) {
+                return None;
+            }
+            seen.push(type_name.clone());
             let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
-            get_schema_at_path_recursive(type_schema, path, schema_file)
+            get_schema_at_path_recursive(type_schema, path, schema_file, seen)
         }
         _ => None,
     }
@@ -692,24 +713,24 @@ pub fn get_schema_fields_at_path(schema_file: &SchemaFile, path: &[String]) -> V
     let resolved = resolve_type_reference(&schema, schema_file);
 
     let mut fields = Vec::new();
-    collect_object_fields(&resolved, schema_file, &mut fields);
+    collect_object_fields(&resolved, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
 /// Resolve a type reference to its actual schema definition.
 fn resolve_type_reference(schema: &Schema, schema_file: &SchemaFile) -> Schema {
-    match schema {
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                resolve_type_reference(type_schema, schema_file)
-            } else {
-                schema.clone()
-            }
-        }
-        other => other.clone(),
+    let mut seen = Vec::new();
+    let mut resolved = schema;
+    while let Schema::Type {
+        name: Some(type_name),
+    } = resolved
+        && !seen.contains(&type_name)
+        && let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone()))
+    {
+        seen.push(type_name);
+        resolved = type_schema;
     }
+    resolved.clone()
 }
 
 #[cfg(test)]
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 84459e9..6a28ded 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1,6 +1,6 @@
 //! LSP server implementation
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 
@@ -2347,17 +2347,21 @@ fn get_field_info_in_schema(schema_block: &Value, path: &[&str]) -> Option<Field
         .find(|e| e.key.is_unit())
         .map(|e| &e.value)?;
 
-    get_field_info_in_type(root, path, schema_obj)
+    get_field_info_in_type(root, path, schema_obj, &mut Visited::new())
 }
 
+/// Types looked at, each with the length of the path that was left. They may refer to themselves.
+type Visited = HashSet<(*const Value, usize)>;
+
 /// Recursively get field info from a type value, following a path.
 /// schema_defs contains all type definitions for resolving references like @Hint.
 fn get_field_info_in_type(
     value: &Value,
     path: &[&str],
     schema_defs: &styx_tree::Object,
+    visited: &mut Visited,
 ) -> Option<FieldInfo> {
-    if path.is_empty() {
+    if path.is_empty() || !visited.insert((std::ptr::from_ref(value), path.len())) {
         return None;
     }
 
@@ -2370,7 +2374,7 @@ fn get_field_info_in_type(
         if field_name.parse::<usize>().is_ok() {
             // Resolve type reference if needed (e.g., @seq(@Spec) -> look up Spec)
             let resolved = resolve_type_reference(seq_element_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
+            return get_field_info_in_type(resolved, remaining_path, schema_defs, visited);
         }
     }
 
@@ -2386,7 +2390,7 @@ fn get_field_info_in_type(
             // Need to go deeper into the map value type
             // If it's a type reference like @Hint, resolve it first
             let resolved = resolve_type_reference(map_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
+            return get_field_info_in_type(resolved, remaining_path, schema_defs, visited);
         }
     }
 
@@ -2402,7 +2406,7 @@ fn get_field_info_in_type(
         } else {
             // Need to go deeper into the catch-all value type
             let resolved = resolve_type_reference(catchall_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
+            return get_field_info_in_type(resolved, remaining_path, schema_defs, visited);
         }
     }
 
@@ -2414,7 +2418,7 @@ fn get_field_info_in_type(
         for entry in &enum_obj.entries {
             // Resolve the variant's value type and recurse
             let resolved = resolve_type_reference(&entry.value, schema_defs);
-            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs) {
+            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs, visited) {
                 return Some(info);
             }
         }
@@ -2422,7 +2426,7 @@ fn get_field_info_in_type(
     }
 
     // Try to get the object - handle various wrappings (also resolves type refs)
-    let obj = extract_object_from_value_with_defs(value, schema_defs)?;
+    let obj = extract_object_from_value_with_defs(value, schema_defs, &mut Visited::new())?;
 
     for entry in &obj.entries {
         if entry.key.as_str() == Some(field_name) {
@@ -2434,13 +2438,13 @@ fn get_field_info_in_type(
                 });
             } else {
                 // Need to go deeper - unwrap wrappers like @optional
-                return get_field_info_in_type(&entry.value, remaining_path, schema_defs);
+                return get_field_info_in_type(&entry.value, remaining_path, schema_defs, visited);
             }
         }
 
         // Check unit key entries (root schema)
         if entry.key.is_unit()
-            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs)
+            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs, visited)
         {
             return Some(found);
         }
@@ -2564,7 +2568,12 @@ fn extract_object_catchall_value_type(value: &Value) -> Option<&Value> {
 fn extract_object_from_value_with_defs<'a>(
     value: &'a Value,
     schema_defs: &'a styx_tree::Object,
+    visited: &mut Visited,
 ) -> Option<&'a styx_tree::Object> {
+    if !visited.insert((std::ptr::from_ref(value), 0)) {
+        return None;
+    }
+
     // First resolve if it's a type reference
     let resolved = resolve_type_reference(value, schema_defs);
 
@@ -2581,7 +2590,9 @@ fn extract_object_from_value_with_defs<'a>(
             Some(styx_tree::Payload::Sequence(seq)) => {
                 // Look for object inside the sequence (recursively resolving type refs)
                 for item in &seq.items {
-                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs) {
+                    if let Some(obj) =
+                        extract_object_from_value_with_defs(item, schema_defs, visited)
+                    {
                         return Some(obj);
                     }
                 }
-- 
2.43.0


From 46122ace4683d51cafe57864e6b408f196dc2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 16/26] fix: a diagnostic about the whole document stays inside
 it

---
 crates/styx-lsp/src/server.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 6a28ded..6f659ff 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -335,10 +335,7 @@ impl StyxLanguageServer {
                     start: offset_to_position(content, span.start as usize),
                     end: offset_to_position(content, span.end as usize),
                 },
-                _ => Range {
-                    start: Position::new(0, 0),
-                    end: Position::new(0, 1),
-                },
+                _ => start_of(content),
             };
 
             diagnostics.push(Diagnostic {
@@ -412,10 +409,7 @@ impl StyxLanguageServer {
                                         end: offset_to_position(content, end),
                                     }
                                 } else {
-                                    Range {
-                                        start: Position::new(0, 0),
-                                        end: Position::new(0, 1),
-                                    }
+                                    start_of(content)
                                 }
                             };
 
@@ -444,10 +438,7 @@ impl StyxLanguageServer {
                                     end: offset_to_position(content, span.end as usize),
                                 }
                             } else {
-                                Range {
-                                    start: Position::new(0, 0),
-                                    end: Position::new(0, 1),
-                                }
+                                start_of(content)
                             };
 
                             diagnostics.push(Diagnostic {
@@ -466,10 +457,7 @@ impl StyxLanguageServer {
                     Err(e) => {
                         // Schema loading error
                         diagnostics.push(Diagnostic {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 1),
-                            },
+                            range: start_of(content),
                             severity: Some(DiagnosticSeverity::ERROR),
                             code: None,
                             code_description: None,
@@ -1917,6 +1905,15 @@ impl LanguageServer for StyxLanguageServer {
     }
 }
 
+/// The range of the first character of the document, for what concerns the document as a whole.
+fn start_of(content: &str) -> Range {
+    let end = position_to_offset(content, Position::new(0, 1));
+    Range {
+        start: Position::new(0, 0),
+        end: offset_to_position(content, end),
+    }
+}
+
 /// Find the nesting depth (number of objects/sequences) containing the given offset.
 ///
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
-- 
2.43.0


From 012d9e05aaa87dd341d40d20950092033ee7d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 17/26] fix: cached schemas are complete, verified and inside
 the cache

---
 crates/styx-lsp/src/cache.rs             | 72 +++++++++++++++++-------
 crates/styx-lsp/src/schema_validation.rs |  4 +-
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index a4c9d7c..1f2b046 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -5,9 +5,10 @@
 
 use sha2::{Digest, Sha256};
 use std::fs;
-use std::io::Write;
 use std::path::PathBuf;
 
+use crate::atomic_file;
+
 /// Get the schema cache directory.
 ///
 /// - Linux/macOS: `$XDG_CACHE_HOME/styx/schemas/` (default: `~/.cache/styx/schemas/`)
@@ -18,16 +19,42 @@ pub fn cache_dir() -> Option<PathBuf> {
 
 /// Get the cache path for an embedded schema.
 ///
-/// Returns `embedded/<cli-name>/<content-hash>.styx`
-pub fn embedded_cache_path(cli_name: &str, content: &str) -> Option<PathBuf> {
+/// Returns `embedded/<cli-name>/<schema-id>/<content-hash>.styx`
+pub fn embedded_cache_path(cli_name: &str, schema_id: &str, content: &str) -> Option<PathBuf> {
     let hash = content_hash(content);
     cache_dir().map(|d| {
         d.join("embedded")
-            .join(cli_name)
+            .join(file_name(cli_name))
+            .join(file_name(schema_id))
             .join(format!("{}.styx", hash))
     })
 }
 
+/// Turn a name that a document or binary supplied into the name of a single directory.
+///
+/// Different names stay different, and nothing in them leads out of the cache.
+fn file_name(name: &str) -> String {
+    let mut escaped = String::new();
+    for (i, byte) in name.bytes().enumerate() {
+        match byte {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'@' | b'+' => {
+                escaped.push(byte as char)
+            }
+            b'.' if i > 0 => escaped.push('.'),
+            _ => escaped.push_str(&format!("%{byte:02X}")),
+        }
+    }
+    if escaped.is_empty() {
+        return "%".to_string();
+    }
+    // File systems limit the length of names.
+    if escaped.len() > 200 {
+        escaped.truncate(180);
+        return format!("{escaped}%-{}", content_hash(name));
+    }
+    escaped
+}
+
 /// Compute a content hash for cache invalidation.
 ///
 /// Returns first 16 hex chars of SHA-256.
@@ -40,13 +67,22 @@ fn content_hash(content: &str) -> String {
 
 /// Cache an embedded schema and return the cache file path.
 ///
-/// If the file already exists (same hash), returns the existing path.
-pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
-    let path = embedded_cache_path(cli_name, content)?;
-
-    // Already cached?
-    if path.exists() {
-        return Some(path);
+/// The file at the path holds exactly `content`: a file that is already there is only used if it
+/// does, and is replaced if it does not.
+pub fn cache_embedded_schema(cli_name: &str, schema_id: &str, content: &str) -> Option<PathBuf> {
+    let path = embedded_cache_path(cli_name, schema_id, content)?;
+
+    match fs::symlink_metadata(&path) {
+        Ok(meta) if meta.is_file() => {
+            if meta.len() == content.len() as u64
+                && fs::read(&path).is_ok_and(|cached| cached == content.as_bytes())
+            {
+                return Some(path);
+            }
+        }
+        // Not something this cache puts there, and not to be written through.
+        Ok(meta) if !meta.is_dir() => fs::remove_file(&path).ok()?,
+        _ => {}
     }
 
     // Create parent directories
@@ -54,9 +90,7 @@ pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
         fs::create_dir_all(parent).ok()?;
     }
 
-    // Write content
-    let mut file = fs::File::create(&path).ok()?;
-    file.write_all(content.as_bytes()).ok()?;
+    atomic_file::write(&path, content).ok()?;
 
     Some(path)
 }
@@ -110,11 +144,11 @@ fn walkdir(dir: &std::path::Path) -> Vec<PathBuf> {
     let mut files = Vec::new();
     if let Ok(entries) = fs::read_dir(dir) {
         for entry in entries.flatten() {
-            let path = entry.path();
-            if path.is_dir() {
-                files.extend(walkdir(&path));
-            } else {
-                files.push(path);
+            // Links lead to files that do not belong to the cache.
+            match entry.file_type() {
+                Ok(kind) if kind.is_dir() => files.extend(walkdir(&entry.path())),
+                Ok(kind) if kind.is_file() => files.push(entry.path()),
+                _ => {}
             }
         }
     }
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 80f2f5c..9809331 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -86,9 +86,7 @@ impl SchemaRef {
             }
             SchemaRef::Embedded { id, cli } => {
                 // Cache the schema to disk and return a file:// URI
-                // Use both cli and id to create a unique cache key
-                let cache_key = format!("{}/{}", cli, id);
-                if let Some(cache_path) = cache::cache_embedded_schema(&cache_key, source) {
+                if let Some(cache_path) = cache::cache_embedded_schema(cli, id, source) {
                     Url::from_file_path(&cache_path)
                         .map_err(|_| format!("could not create URI for '{}'", cache_path.display()))
                 } else {
-- 
2.43.0


From 159c6e6ee660d505998cc7d26ef9c08f54510fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 18/26] fix: deeply nested documents no longer overflow the
 stack

---
 crates/styx-cst/src/parser.rs       | 38 +++++++++++++++++++++
 crates/styx-parse/src/parser/mod.rs | 53 ++++++++++++++++++++++++++++-
 2 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..5ebc382 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -70,6 +70,9 @@ pub fn parse(source: &str) -> Parse {
     parser.parse()
 }
 
+/// How deep values may be nested in each other; the same limit as in `styx-parse`.
+const MAX_DEPTH: usize = 128;
+
 /// CST parser that builds a green tree using rowan.
 struct CstParser<'src> {
     #[allow(dead_code)]
@@ -77,6 +80,8 @@ struct CstParser<'src> {
     lexer: std::iter::Peekable<TokenIter<'src>>,
     builder: rowan::GreenNodeBuilder<'static>,
     errors: Vec<ParseError>,
+    /// How many objects, sequences and tags enclose the atom being parsed.
+    depth: usize,
 }
 
 /// Iterator adapter for the lexer that includes EOF.
@@ -108,6 +113,7 @@ impl<'src> CstParser<'src> {
             lexer: TokenIter { lexer, done: false }.peekable(),
             builder: rowan::GreenNodeBuilder::new(),
             errors: Vec::new(),
+            depth: 0,
         }
     }
 
@@ -360,6 +366,17 @@ impl<'src> CstParser<'src> {
     /// Parse a single atom (scalar, object, sequence, tag, or unit).
     fn parse_atom(&mut self) {
         let kind = self.peek();
+        let levels = match kind {
+            TokenKind::LBrace | TokenKind::LParen => 1,
+            TokenKind::Tag => self
+                .peek_token()
+                .map_or(0, |token| token.text.split("/@").count()),
+            _ => 0,
+        };
+        if self.depth + levels > MAX_DEPTH {
+            return self.skip_too_deep();
+        }
+        self.depth += levels;
         match kind {
             TokenKind::LBrace => self.parse_object(),
             TokenKind::LParen => self.parse_sequence(),
@@ -382,6 +399,27 @@ impl<'src> CstParser<'src> {
                 self.bump();
             }
         }
+        self.depth -= levels;
+    }
+
+    /// Add what starts with the current token, and is nested too deeply, to the tree as it is.
+    fn skip_too_deep(&mut self) {
+        let pos = self.current_pos();
+        self.errors
+            .push(ParseError::new(pos, "nested too deeply".to_string()));
+        let mut open = 0;
+        loop {
+            match self.peek() {
+                TokenKind::LBrace | TokenKind::LParen => open += 1,
+                TokenKind::RBrace | TokenKind::RParen => open -= 1,
+                TokenKind::Eof => break,
+                _ => {}
+            }
+            self.bump();
+            if open == 0 {
+                break;
+            }
+        }
     }
 
     /// Parse an object `{ ... }`.
diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..8c2f7c4 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -40,6 +40,12 @@ impl<'src> LexemeSource<'src> {
     }
 }
 
+/// How deep values may be nested in each other.
+///
+/// Whatever handles a document recurses into it, so without a limit a document that is nested
+/// deeply enough would overflow the stack.
+const MAX_DEPTH: usize = 128;
+
 /// Pull-based event parser for Styx.
 #[derive(Clone)]
 pub struct Parser<'src> {
@@ -47,6 +53,8 @@ pub struct Parser<'src> {
     source: LexemeSource<'src>,
     state: ParserState,
     event_queue: VecDeque<Event<'src>>,
+    /// How many objects, sequences, attributes and tags enclose the atom being parsed.
+    depth: usize,
 }
 
 /// Parser state machine states.
@@ -91,6 +99,7 @@ impl<'src> Parser<'src> {
             source: LexemeSource::new(source),
             state: ParserState::BeforeDocument,
             event_queue: VecDeque::new(),
+            depth: 0,
         }
     }
 
@@ -104,6 +113,7 @@ impl<'src> Parser<'src> {
             source: LexemeSource::new(source),
             state: ParserState::BeforeExpression,
             event_queue: VecDeque::new(),
+            depth: 0,
         }
     }
 
@@ -672,6 +682,44 @@ impl<'src> Parser<'src> {
 
     /// Parse a single atom.
     fn parse_atom(&mut self, lexeme: Lexeme<'src>) -> Atom<'src> {
+        let levels = match &lexeme {
+            Lexeme::ObjectStart { .. } | Lexeme::SeqStart { .. } | Lexeme::AttrKey { .. } => 1,
+            Lexeme::Tag { span, name, .. } => split_chained_tag_name(name, span.start).len(),
+            _ => 0,
+        };
+        if self.depth + levels > MAX_DEPTH {
+            return self.skip_too_deep(lexeme);
+        }
+        self.depth += levels;
+        let atom = self.parse_atom_within_limit(lexeme);
+        self.depth -= levels;
+        atom
+    }
+
+    /// Skip what starts with a lexeme that is nested too deeply.
+    fn skip_too_deep(&mut self, lexeme: Lexeme<'src>) -> Atom<'src> {
+        let span = lexeme.span();
+        let mut open = match lexeme {
+            Lexeme::ObjectStart { .. } | Lexeme::SeqStart { .. } => 1,
+            _ => 0,
+        };
+        while open > 0 {
+            match self.source.next() {
+                Lexeme::ObjectStart { .. } | Lexeme::SeqStart { .. } => open += 1,
+                Lexeme::ObjectEnd { .. } | Lexeme::SeqEnd { .. } => open -= 1,
+                Lexeme::Eof => break,
+                _ => {}
+            }
+        }
+        Atom {
+            span,
+            content: AtomContent::Error {
+                message: "nested too deeply",
+            },
+        }
+    }
+
+    fn parse_atom_within_limit(&mut self, lexeme: Lexeme<'src>) -> Atom<'src> {
         match lexeme {
             Lexeme::Scalar { span, value, kind } => Atom {
                 span,
@@ -1011,7 +1059,10 @@ impl<'src> Parser<'src> {
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
-        if segments.is_empty() || segments.iter().any(|s| s.is_empty()) {
+        if segments.is_empty()
+            || segments.len() > MAX_DEPTH
+            || segments.iter().any(|s| s.is_empty())
+        {
             self.event_queue.push_back(Event {
                 span: path_span,
                 kind: EventKind::Error {
-- 
2.43.0


From a70b95c25ca1707fd118c46c3ed26204e385a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 19/26] fix: a malformed unicode escape next to a wide
 character no longer panics

---
 crates/styx-parse/src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 8c2f7c4..487da0f 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -2006,7 +2006,11 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                         }
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
+                            let mut end = end.min(escape_start + 12);
+                            while !text.is_char_boundary(end) {
+                                end -= 1;
+                            }
+                            let seq = &text[escape_start..end];
                             errors.push((escape_start, seq.to_string()));
                         }
                     }
-- 
2.43.0


From 2a5e78b76856caa96bba34902d58cb0e782cf628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:18 +0000
Subject: [PATCH 20/26] fix: the language server reads schemas only from
 regular files

---
 crates/styx-lsp/src/schema_validation.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 9809331..bb8ef46 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -48,9 +48,7 @@ impl SchemaRef {
             SchemaRef::External(path) => {
                 let resolved = resolve_schema_path(path, document_uri)
                     .ok_or_else(|| format!("could not resolve schema path '{}'", path))?;
-                std::fs::read_to_string(&resolved).map_err(|e| {
-                    format!("failed to read schema file '{}': {}", resolved.display(), e)
-                })
+                read_schema_file(&resolved)
             }
             SchemaRef::Embedded { id, cli } => extract_embedded_schema_source(cli, id),
             SchemaRef::None => Err("schema validation explicitly disabled".to_string()),
@@ -182,10 +180,25 @@ fn resolve_schema_path(schema_path: &str, document_uri: &Url) -> Option<PathBuf>
     Some(parent.join(schema_path))
 }
 
+/// Read the text of a schema file.
+///
+/// The path is whatever the document says at the moment: only regular files are
+/// read, since a device or a named pipe may never end.
+fn read_schema_file(path: &Path) -> Result<String, String> {
+    std::fs::metadata(path)
+        .and_then(|metadata| {
+            if metadata.is_file() {
+                std::fs::read_to_string(path)
+            } else {
+                Err(std::io::Error::other("not a regular file"))
+            }
+        })
+        .map_err(|e| format!("failed to read schema file '{}': {}", path.display(), e))
+}
+
 /// Load a schema file from disk.
 fn load_schema_file(path: &Path) -> Result<SchemaFile, String> {
-    let content = std::fs::read_to_string(path)
-        .map_err(|e| format!("failed to read schema file '{}': {}", path.display(), e))?;
+    let content = read_schema_file(path)?;
 
     facet_styx::from_str(&content)
         .map_err(|e| format!("failed to parse schema file '{}': {}", path.display(), e))
-- 
2.43.0


From c945c1fa9d99023d4c5b3d62daac093f148065ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:16 +0000
Subject: [PATCH 21/26] fix: the cursor in a schema declaration or under a tag
 key is not in the parent object

---
 crates/styx-lsp/src/schema_validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index bb8ef46..5f9ac72 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -591,15 +591,20 @@ fn find_object_at_offset_recursive(
     }
 
     for entry in &obj.entries {
+        // The schema declaration is not part of what the schema describes
+        if path.is_empty() && entry.key.is_schema_tag() {
+            continue;
+        }
         if let Some(val_span) = entry.value.span
             && offset >= val_span.start as usize
             && offset <= val_span.end as usize
             && let Some(nested_obj) = entry.value.as_object()
         {
             let mut nested_path = path.clone();
-            if let Some(key) = entry.key.as_str() {
-                nested_path.push(key.to_string());
-            }
+            nested_path.push(match entry.key.as_str() {
+                Some(key) => key.to_string(),
+                None => format!("@{}", entry.key.tag_name().unwrap_or_default()),
+            });
             // If the value has a tag (like @query), add it to the path
             // This allows schema navigation to find enum variants
             if let Some(tag) = entry.value.tag_name() {
-- 
2.43.0


From 3227d9e693b6ee9d5b2c6d3350450eecc8337b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:44 +0000
Subject: [PATCH 22/26] fix: a cache entry that cannot be examined is left
 alone

---
 crates/styx-lsp/src/cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index 1f2b046..d92427a 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -82,7 +82,10 @@ pub fn cache_embedded_schema(cli_name: &str, schema_id: &str, content: &str) ->
         }
         // Not something this cache puts there, and not to be written through.
         Ok(meta) if !meta.is_dir() => fs::remove_file(&path).ok()?,
-        _ => {}
+        Ok(_) => {}
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+        // Whatever is there, it is not to be written through either.
+        Err(_) => return None,
     }
 
     // Create parent directories
-- 
2.43.0


From 715d4e4e2b3aa8751b4029b873d763221b880a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:53 +0000
Subject: [PATCH 23/26] fix: styx cache reports an error when the cache cannot
 be examined

---
 crates/styx-cli/src/main.rs  |  21 +++----
 crates/styx-lsp/src/cache.rs | 107 +++++++++++++++++++----------------
 2 files changed, 67 insertions(+), 61 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 3f8f469..1aa9d8b 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -797,18 +797,15 @@ fn run_cache(open: bool, clear: bool) -> Result<(), CliError> {
 
     println!("Cache directory: {}", cache_dir.display());
 
-    if let Some(stats) = cache::cache_stats() {
-        println!(
-            "Embedded schemas: {} ({} bytes)",
-            stats.embedded_count, stats.embedded_size
-        );
-        println!(
-            "Crate schemas: {} ({} bytes)",
-            stats.crate_count, stats.crate_size
-        );
-    } else {
-        println!("(cache directory does not exist)");
-    }
+    let stats = cache::cache_stats()?;
+    println!(
+        "Embedded schemas: {} ({} bytes)",
+        stats.embedded_count, stats.embedded_size
+    );
+    println!(
+        "Crate schemas: {} ({} bytes)",
+        stats.crate_count, stats.crate_size
+    );
 
     Ok(())
 }
diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index d92427a..ea83931 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -107,55 +107,69 @@ pub struct CacheStats {
 }
 
 /// Get cache statistics.
-pub fn cache_stats() -> Option<CacheStats> {
-    let dir = cache_dir()?;
-
-    let mut stats = CacheStats {
-        embedded_count: 0,
-        embedded_size: 0,
-        crate_count: 0,
-        crate_size: 0,
-    };
-
-    // Count embedded schemas
-    let embedded_dir = dir.join("embedded");
-    if embedded_dir.exists() {
-        for entry in walkdir(&embedded_dir) {
-            if entry.extension().is_some_and(|e| e == "styx") {
-                stats.embedded_count += 1;
-                stats.embedded_size += entry.metadata().map(|m| m.len()).unwrap_or(0);
-            }
-        }
-    }
+///
+/// What disappears meanwhile is not counted; what cannot be examined is an error.
+pub fn cache_stats() -> std::io::Result<CacheStats> {
+    let dir = cache_dir().ok_or_else(|| {
+        std::io::Error::new(std::io::ErrorKind::NotFound, "cache directory not found")
+    })?;
 
-    // Count crate schemas
-    let crates_dir = dir.join("crates");
-    if crates_dir.exists() {
-        for entry in walkdir(&crates_dir) {
-            if entry.extension().is_some_and(|e| e == "styx") {
-                stats.crate_count += 1;
-                stats.crate_size += entry.metadata().map(|m| m.len()).unwrap_or(0);
-            }
+    let (embedded_count, embedded_size) = count_schemas(&dir.join("embedded"))?;
+    let (crate_count, crate_size) = count_schemas(&dir.join("crates"))?;
+
+    Ok(CacheStats {
+        embedded_count,
+        embedded_size,
+        crate_count,
+        crate_size,
+    })
+}
+
+/// Count the schemas below a directory, and their bytes.
+fn count_schemas(dir: &std::path::Path) -> std::io::Result<(usize, u64)> {
+    let (mut count, mut size) = (0, 0);
+    for entry in walkdir(dir)? {
+        if entry.extension().is_some_and(|e| e == "styx")
+            && let Some(meta) = unless_gone(entry.metadata())?
+        {
+            count += 1;
+            size += meta.len();
         }
     }
-
-    Some(stats)
+    Ok((count, size))
 }
 
 /// Simple recursive directory walker.
-fn walkdir(dir: &std::path::Path) -> Vec<PathBuf> {
+fn walkdir(dir: &std::path::Path) -> std::io::Result<Vec<PathBuf>> {
     let mut files = Vec::new();
-    if let Ok(entries) = fs::read_dir(dir) {
-        for entry in entries.flatten() {
+    if let Some(entries) = unless_gone(fs::read_dir(dir))? {
+        for entry in entries {
+            let entry = entry?;
             // Links lead to files that do not belong to the cache.
-            match entry.file_type() {
-                Ok(kind) if kind.is_dir() => files.extend(walkdir(&entry.path())),
-                Ok(kind) if kind.is_file() => files.push(entry.path()),
+            match unless_gone(entry.file_type())? {
+                Some(kind) if kind.is_dir() => files.extend(walkdir(&entry.path())?),
+                Some(kind) if kind.is_file() => files.push(entry.path()),
                 _ => {}
             }
         }
     }
-    files
+    Ok(files)
+}
+
+/// `None` for what does not exist (any more), or is no directory where one is looked for.
+fn unless_gone<T>(result: std::io::Result<T>) -> std::io::Result<Option<T>> {
+    match result {
+        Ok(value) => Ok(Some(value)),
+        Err(e)
+            if matches!(
+                e.kind(),
+                std::io::ErrorKind::NotFound | std::io::ErrorKind::NotADirectory
+            ) =>
+        {
+            Ok(None)
+        }
+        Err(e) => Err(e),
+    }
 }
 
 /// Clear all cached schemas.
@@ -164,18 +178,13 @@ pub fn clear_cache() -> std::io::Result<(usize, u64)> {
         std::io::Error::new(std::io::ErrorKind::NotFound, "cache directory not found")
     })?;
 
-    let stats = cache_stats();
-    let count = stats
-        .as_ref()
-        .map(|s| s.embedded_count + s.crate_count)
-        .unwrap_or(0);
-    let size = stats
-        .as_ref()
-        .map(|s| s.embedded_size + s.crate_size)
-        .unwrap_or(0);
-
-    if dir.exists() {
-        fs::remove_dir_all(&dir)?;
+    let stats = cache_stats()?;
+    let count = stats.embedded_count + stats.crate_count;
+    let size = stats.embedded_size + stats.crate_size;
+
+    match fs::remove_dir_all(&dir) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(e),
+        _ => {}
     }
 
     Ok((count, size))
-- 
2.43.0


From 094444bc734fc44a8242d913fbd1d08c2913b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 24/26] fix: the language server ends although the editor takes
 no output while an extension starts

---
 crates/styx-lsp/src/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 6f659ff..3c7a1de 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3184,8 +3184,10 @@ pub async fn run() -> eyre::Result<()> {
         () = serve => {}
         () = async {
             session.ended().await;
-            extensions.shutdown_all().await;
-            tokio::time::sleep(EXIT_TIMEOUT).await;
+            let timeout = tokio::time::sleep(EXIT_TIMEOUT);
+            // Requests that are starting an extension get no further if the editor takes no output
+            let _ = tokio::time::timeout(EXIT_TIMEOUT, extensions.shutdown_all()).await;
+            timeout.await;
         } => tracing::warn!("Requests still in progress at exit"),
     }
 
-- 
2.43.0


From 9aaa38eff6866fb98db805e7eb4d8aa6bddd5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:46 +0000
Subject: [PATCH 25/26] fix: requests see the document changes sent before them
 however many are pending

---
 crates/styx-lsp/src/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 3c7a1de..c561795 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3179,6 +3179,9 @@ pub async fn run() -> eyre::Result<()> {
     let serve = Server::new(stdin, stdout, socket)
         .concurrency_level(MAX_CONCURRENCY)
         .serve(service);
+    // Messages are handled in order because the first poll of each takes effect. A spent budget
+    // would have a change to a document wait, and requests sent after it not see it.
+    let serve = tokio::task::unconstrained(serve);
     tokio::select! {
         biased;
         () = serve => {}
-- 
2.43.0


From 0b37942cccc5992001a8c4d753640562fa88944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:04 +0000
Subject: [PATCH 26/26] fix: many calls at once do not cost the connection to
 an extension

---
 crates/styx-lsp/src/extensions.rs | 14 +++++++++-----
 crates/styx-lsp/src/server.rs     | 12 ++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 212a553..78b3171 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -57,12 +57,16 @@ const REPLY_TIMEOUT: Duration = Duration::from_secs(5);
 const RETRY_DELAY: Duration = Duration::from_secs(30);
 
 /// Wait for an extension to answer, but not forever.
-pub(crate) async fn reply<T, E: Debug>(
-    call: impl Future<Output = Result<T, E>>,
+///
+/// A call goes on when nobody waits for it any more. The extension is busy with it until then, and
+/// too many calls at once would end the connection.
+pub(crate) async fn reply<T: Send + 'static, E: Debug + Send + 'static>(
+    call: impl Future<Output = Result<T, E>> + Send + 'static,
 ) -> Result<T, String> {
-    match timeout(REPLY_TIMEOUT, call).await {
-        Ok(result) => result.map_err(|e| format!("{e:?}")),
-        Err(_) => Err("no answer in time".to_string()),
+    match tokio::spawn(timeout(REPLY_TIMEOUT, call)).await {
+        Ok(Ok(result)) => result.map_err(|e| format!("{e:?}")),
+        Ok(Err(_)) => Err("no answer in time".to_string()),
+        Err(e) => Err(e.to_string()),
     }
 }
 
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index c561795..9ef9b39 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -253,7 +253,7 @@ impl StyxLanguageServer {
                     content: content.to_string(),
                 };
 
-                match reply(client.diagnostics(ext_params)).await {
+                match reply(async move { client.diagnostics(ext_params).await }).await {
                     Ok(ext_diagnostics) => {
                         tracing::debug!(
                             count = ext_diagnostics.len(),
@@ -770,7 +770,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match reply(client.definition(ext_params)).await {
+                match reply(async move { client.definition(ext_params).await }).await {
                     Ok(locations) if !locations.is_empty() => {
                         tracing::debug!(count = locations.len(), "Extension returned definitions");
                         let lsp_locations: Vec<Location> = locations
@@ -886,7 +886,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match reply(client.hover(ext_params)).await {
+                match reply(async move { client.hover(ext_params).await }).await {
                     Ok(Some(result)) => {
                         tracing::debug!(contents = %result.contents, "Extension returned hover");
                         let range = result.range.map(|r| Range {
@@ -1159,7 +1159,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match reply(client.completions(ext_params)).await {
+                match reply(async move { client.completions(ext_params).await }).await {
                     Ok(ext_items) => {
                         tracing::debug!(count = ext_items.len(), "Got completions from extension");
                         for item in ext_items {
@@ -1348,7 +1348,7 @@ impl LanguageServer for StyxLanguageServer {
                     diagnostics: ext_diagnostics,
                 };
 
-                match reply(client.code_actions(ext_params)).await {
+                match reply(async move { client.code_actions(ext_params).await }).await {
                     Ok(ext_actions) => {
                         tracing::debug!(
                             count = ext_actions.len(),
@@ -1778,7 +1778,7 @@ impl LanguageServer for StyxLanguageServer {
                     context: Some(tree.clone()),
                 };
 
-                match reply(client.inlay_hints(ext_params)).await {
+                match reply(async move { client.inlay_hints(ext_params).await }).await {
                     Ok(ext_hints) => {
                         tracing::debug!(count = ext_hints.len(), "Got inlay hints from extension");
                         for hint in ext_hints {
-- 
2.43.0

