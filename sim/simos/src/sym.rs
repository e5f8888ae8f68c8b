//! The interposed libc symbols.

use crate::rng::{mix, Rng};
use crate::{Class, Fault, Sticky, CRASH_EXIT};
use libc::{c_char, c_int, c_long, c_void, mode_t, off_t, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// Everything the simulated operating system does differently from the real one.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Absolute scratch directory: the only place where anything may change.
    pub root: String,
    /// Log file (outside the root); empty for none.
    pub log: String,
    /// Treat descriptors 0 and 1 as simulated streams.
    pub std_streams: bool,
    pub faults: Vec<(u32, Fault)>,
    pub sticky: Vec<Sticky>,
    /// Cut reads / writes into pseudo-random pieces of at most this many bytes (0: off).
    pub seg_read: usize,
    pub seg_write: usize,
    /// Probability of EINTR per read/write/open, in 1/1000.
    pub eintr: usize,
    /// Seed of the segmentation and EINTR decisions.
    pub seed: u64,
    /// Seed of getrandom.
    pub entropy: u64,
    pub pid: i32,
    pub time_s: u64,
    /// Refuse process creation.
    pub deny_spawn: bool,
    /// Stop before every step: write its number to the first descriptor and wait for a line from
    /// the second. With it another scheduler decides the order of several processes' steps.
    pub gate: Option<(i32, i32)>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let mut l = |k: &str, v: String| {
            s.push_str(k);
            s.push(' ');
            s.push_str(&v);
            s.push('\n');
        };
        l("root", self.root.clone());
        l("log", self.log.clone());
        l("std", (self.std_streams as u8).to_string());
        l("segr", self.seg_read.to_string());
        l("segw", self.seg_write.to_string());
        l("eintr", self.eintr.to_string());
        l("seed", self.seed.to_string());
        l("entropy", self.entropy.to_string());
        l("pid", self.pid.to_string());
        l("time", self.time_s.to_string());
        l("denyspawn", (self.deny_spawn as u8).to_string());
        if let Some((a, b)) = self.gate {
            l("gate", format!("{a} {b}"));
        }
        for (n, f) in &self.faults {
            l("fault", format!("{n} {}", fault_text(*f)));
        }
        for f in &self.sticky {
            l("sticky", format!("{} {} {}", f.from, f.class.name(), f.errno));
        }
        s
    }

    pub fn from_text(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        for line in t.lines() {
            let (k, v) = line.split_once(' ')?;
            match k {
                "root" => p.root = v.to_string(),
                "log" => p.log = v.to_string(),
                "std" => p.std_streams = v == "1",
                "segr" => p.seg_read = v.parse().ok()?,
                "segw" => p.seg_write = v.parse().ok()?,
                "eintr" => p.eintr = v.parse().ok()?,
                "seed" => p.seed = v.parse().ok()?,
                "entropy" => p.entropy = v.parse().ok()?,
                "pid" => p.pid = v.parse().ok()?,
                "time" => p.time_s = v.parse().ok()?,
                "denyspawn" => p.deny_spawn = v == "1",
                "gate" => {
                    let (a, b) = v.split_once(' ')?;
                    p.gate = Some((a.parse().ok()?, b.parse().ok()?));
                }
                "fault" => {
                    let (n, f) = v.split_once(' ')?;
                    p.faults.push((n.parse().ok()?, parse_fault(f)?));
                }
                "sticky" => {
                    let mut it = v.split(' ');
                    p.sticky.push(Sticky {
                        from: it.next()?.parse().ok()?,
                        class: Class::parse(it.next()?)?,
                        errno: it.next()?.parse().ok()?,
                    });
                }
                _ => return None,
            }
        }
        Some(p)
    }
}

pub fn fault_text(f: Fault) -> String {
    match f {
        Fault::Err(e) => format!("err {e}"),
        Fault::Short(n) => format!("short {n}"),
        Fault::Crash => "crash 0".into(),
        Fault::Torn(n) => format!("torn {n}"),
        Fault::CrashAfter => "crashafter 0".into(),
    }
}

pub fn parse_fault(s: &str) -> Option<Fault> {
    let (k, v) = s.split_once(' ')?;
    let n: i64 = v.parse().ok()?;
    Some(match k {
        "err" => Fault::Err(n as i32),
        "short" => Fault::Short(n as usize),
        "crash" => Fault::Crash,
        "torn" => Fault::Torn(n as usize),
        "crashafter" => Fault::CrashAfter,
        _ => return None,
    })
}

#[derive(Clone)]
struct FdInfo {
    path: String,
    class: FdClass,
    append: bool,
    ino: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum FdClass {
    File,
    Dir,
    Stdin,
    Stdout,
}

const MAXFD: usize = 4096;

struct State {
    plan: Plan,
    step: u32,
    fds: Vec<Option<FdInfo>>,
    logfd: c_int,
    rng: Rng,
    entropy: u64,
}

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static mut STATE: Option<Box<State>> = None;

fn with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    if !ON.load(Ordering::Acquire) {
        return None;
    }
    while LOCK
        .compare_exchange_weak(false, true, Ordering::AcqRel, Ordering::Relaxed)
        .is_err()
    {
        unsafe { libc::syscall(libc::SYS_sched_yield) };
    }
    #[allow(static_mut_refs)]
    let r = unsafe { STATE.as_mut().map(|s| f(s)) };
    LOCK.store(false, Ordering::Release);
    r
}

/// Switch the simulated operating system on.
pub fn init(plan: Plan) {
    shutdown();
    let logfd = if plan.log.is_empty() {
        -1
    } else {
        let mut p = plan.log.clone().into_bytes();
        p.push(0);
        let fd = unsafe {
            libc::syscall(
                libc::SYS_openat,
                libc::AT_FDCWD,
                p.as_ptr(),
                libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND | libc::O_CLOEXEC,
                0o644,
            ) as c_int
        };
        let hi = unsafe {
            libc::syscall(libc::SYS_fcntl, fd, libc::F_DUPFD_CLOEXEC, 900) as c_int
        };
        unsafe { libc::syscall(libc::SYS_close, fd) };
        hi
    };
    let mut fds: Vec<Option<FdInfo>> = vec![None; MAXFD];
    if plan.std_streams {
        fds[0] = Some(FdInfo { path: "<stdin>".into(), class: FdClass::Stdin, append: false, ino: 0 });
        fds[1] = Some(FdInfo { path: "<stdout>".into(), class: FdClass::Stdout, append: true, ino: 1 });
    }
    CLOCK_NS.store(plan.time_s.wrapping_mul(1_000_000_000), Ordering::Release);
    CLOCK_ON.store(plan.time_s != 0, Ordering::Release);
    let st = State {
        rng: Rng::derive(plan.seed, "simos"),
        entropy: mix(plan.entropy ^ 0xE17),
        plan,
        step: 0,
        fds,
        logfd,
    };
    unsafe { STATE = Some(Box::new(st)) };
    ON.store(true, Ordering::Release);
}

/// Switch it off again; returns the number of steps taken.
pub fn shutdown() -> u32 {
    let n = with(|s| {
        if s.logfd >= 0 {
            unsafe { libc::syscall(libc::SYS_close, s.logfd) };
        }
        s.step
    });
    ON.store(false, Ordering::Release);
    n.unwrap_or(0)
}

pub fn steps() -> u32 {
    with(|s| s.step).unwrap_or(0)
}

/// Number of intercepted calls since process start (self-check that interposition works).
pub fn calls_seen() -> u64 {
    CALLS.load(Ordering::Relaxed)
}

/// Set the simulated clock (nanoseconds since the epoch).
pub fn set_clock_ns(ns: u64) {
    CLOCK_NS.store(ns, Ordering::Release);
    CLOCK_ON.store(true, Ordering::Release);
}
pub fn reset_clock() {
    CLOCK_ON.store(false, Ordering::Release);
}

fn errno(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02x}"));
        }
    }
    if o.is_empty() {
        o.push('%');
    }
    o
}

fn hex(d: &[u8]) -> String {
    const H: &[u8] = b"0123456789abcdef";
    let mut o = String::with_capacity(d.len() * 2 + 1);
    for b in d {
        o.push(H[(b >> 4) as usize] as char);
        o.push(H[(b & 15) as usize] as char);
    }
    if o.is_empty() {
        o.push('-');
    }
    o
}

impl State {
    fn log(&self, line: String) {
        if self.logfd < 0 {
            return;
        }
        let mut b = line.into_bytes();
        b.push(b'\n');
        let mut off = 0;
        while off < b.len() {
            let n = unsafe {
                libc::syscall(libc::SYS_write, self.logfd, b[off..].as_ptr(), b.len() - off)
            };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
    }

    /// Wait for the scheduler's permission to take the next step.
    fn gate(&self, op: &str, path: &str) {
        let Some((out, inp)) = self.plan.gate else { return };
        let msg = format!("{{\"e\":\"gate\",\"step\":{},\"op\":\"{op}\",\"path\":\"{}\"}}\n", self.step, esc(path));
        let b = msg.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { libc::syscall(libc::SYS_write, out, b[o..].as_ptr(), b.len() - o) };
            if n <= 0 {
                unsafe { libc::syscall(libc::SYS_exit_group, 3) };
            }
            o += n as usize;
        }
        let mut c = [0u8; 1];
        loop {
            let n = unsafe { libc::syscall(libc::SYS_read, inp, c.as_mut_ptr(), 1) };
            if n <= 0 {
                unsafe { libc::syscall(libc::SYS_exit_group, 3) };
            }
            if c[0] == b'\n' {
                return;
            }
        }
    }

    fn crash(&self) -> ! {
        unsafe {
            libc::syscall(libc::SYS_exit_group, CRASH_EXIT);
        }
        loop {}
    }

    /// Count a step; returns the fault attached to it.
    fn step(&mut self, class: Class, op: &str, path: &str) -> Option<Fault> {
        self.step += 1;
        let n = self.step;
        self.gate(op, path);
        let mut f = self.plan.faults.iter().find(|(k, _)| *k == n).map(|(_, f)| *f);
        if f.is_none() {
            f = self
                .plan
                .sticky
                .iter()
                .find(|s| s.class == class && n >= s.from)
                .map(|s| Fault::Err(s.errno));
        }
        if f.is_none()
            && self.plan.eintr > 0
            && op != "mmap"
            && matches!(class, Class::Read | Class::Write | Class::Stdin | Class::Stdout | Class::Open)
            && self.rng.below(1000) < self.plan.eintr
        {
            f = Some(Fault::Err(libc::EINTR));
        }
        self.log(format!("step {n} {} {op} {}", class.name(), esc(path)));
        if let Some(f) = f {
            self.log(format!("fault {n} {} {}", class.name(), fault_text(f)));
            if f == Fault::Crash {
                self.crash();
            }
        }
        f
    }

    fn after(&self, f: Option<Fault>) {
        if f == Some(Fault::CrashAfter) {
            self.crash();
        }
    }

    fn in_root(&self, p: &str) -> bool {
        let r = &self.plan.root;
        !r.is_empty() && p.starts_with(r.as_str()) && (p.len() == r.len() || p.as_bytes()[r.len()] == b'/')
    }

    fn escape(&mut self, op: &str, path: &str) {
        let n = self.step;
        self.log(format!("escape {n} {op} {}", esc(path)));
    }

    fn info(&self, fd: c_int) -> Option<FdInfo> {
        if fd < 0 || fd as usize >= MAXFD {
            return None;
        }
        self.fds[fd as usize].clone()
    }

    fn cut(&mut self, want: usize, f: Option<Fault>, max: usize) -> usize {
        let mut n = want;
        if max > 0 && n > 1 {
            n = n.min(1 + self.rng.below(max));
        }
        match f {
            Some(Fault::Short(k)) if want > 0 => n.min(k.max(1)),
            Some(Fault::Torn(k)) => n.min(k),
            _ => n,
        }
    }
}

fn cstr(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    let b = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
    String::from_utf8_lossy(b).into_owned()
}

fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    let mut s = String::new();
    for c in out {
        s.push('/');
        s.push_str(c);
    }
    if s.is_empty() {
        s.push('/');
    }
    s
}

fn readlink_fd(fd: c_int) -> String {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 4096];
    let n = unsafe {
        libc::syscall(
            libc::SYS_readlinkat,
            libc::AT_FDCWD,
            link.as_ptr(),
            buf.as_mut_ptr(),
            buf.len(),
        )
    };
    if n <= 0 {
        return String::new();
    }
    String::from_utf8_lossy(&buf[..n as usize]).into_owned()
}

fn cwd() -> String {
    let mut buf = [0u8; 4096];
    let n = unsafe { libc::syscall(libc::SYS_getcwd, buf.as_mut_ptr(), buf.len()) };
    if n <= 0 {
        return "/".into();
    }
    String::from_utf8_lossy(&buf[..(n as usize - 1)]).into_owned()
}

fn abspath(dirfd: c_int, p: *const c_char) -> String {
    let s = cstr(p);
    if s.starts_with('/') {
        return normalize(&s);
    }
    let base = if dirfd == libc::AT_FDCWD { cwd() } else { readlink_fd(dirfd) };
    normalize(&format!("{base}/{s}"))
}

/// The place a name is about: its directory with symbolic links resolved, and the name itself.
fn entry_path(dirfd: c_int, p: *const c_char) -> String {
    let abs = abspath(dirfd, p);
    let Some((dir, name)) = abs.rsplit_once('/') else { return abs };
    let d = format!("{}/\0", dir);
    let fd = unsafe {
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, d.as_ptr(), libc::O_PATH | libc::O_DIRECTORY | libc::O_CLOEXEC, 0) as c_int
    };
    if fd < 0 {
        return abs;
    }
    let real = readlink_fd(fd);
    unsafe { libc::syscall(libc::SYS_close, fd) };
    if real.is_empty() { abs } else { normalize(&format!("{real}/{name}")) }
}

fn kstat(dirfd: c_int, path: *const c_char, flags: c_int) -> Option<libc::stat> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::syscall(libc::SYS_newfstatat, dirfd, path, &mut st as *mut _, flags) };
    (r == 0).then_some(st)
}

fn fstat_ino(fd: c_int) -> (u64, u32, i64) {
    match kstat(fd, c"".as_ptr(), libc::AT_EMPTY_PATH) {
        Some(st) => (st.st_ino, st.st_mode, st.st_size),
        None => (0, 0, 0),
    }
}

/// libc returns errors of raw syscalls through errno already (libc::syscall does).
fn real_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_long) as c_int }
}

fn is_device(p: &str) -> bool {
    p == "/dev/null" || p == "/dev/tty" || p == "/dev/stderr" || p == "/dev/stdout"
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let abs = entry_path(dirfd, path);
        let writes = flags & libc::O_ACCMODE != libc::O_RDONLY
            || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
        if !s.in_root(&abs) {
            if writes && !is_device(&abs) {
                s.escape("open", &abs);
                return Some(Err(libc::EACCES));
            }
            return None;
        }
        let op = if flags & libc::O_CREAT != 0 {
            "create"
        } else if writes {
            "openw"
        } else if flags & libc::O_DIRECTORY != 0 {
            "opendir"
        } else {
            "open"
        };
        let f = s.step(Class::Open, op, &abs);
        if let Some(Fault::Err(e)) = f {
            return Some(Err(e));
        }
        let before = kstat(dirfd, path, 0);
        let fd = real_open(dirfd, path, flags, mode);
        if fd < 0 {
            let e = unsafe { *libc::__errno_location() };
            s.log(format!("result {} {e}", s.step));
            s.after(f);
            return Some(Err(e));
        }
        let (ino, m, _) = fstat_ino(fd);
        // the file the name leads to (through symbolic links)
        let target = normalize(&readlink_fd(fd));
        let created = before.is_none() && flags & libc::O_CREAT != 0;
        if created {
            s.log(format!("m {} create {ino} {} {:o}", s.step, esc(&target), m & 0o7777));
        } else if flags & libc::O_TRUNC != 0 {
            s.log(format!("m {} trunc {ino} 0", s.step));
        }
        if (fd as usize) < MAXFD {
            let class = if m & libc::S_IFMT == libc::S_IFDIR { FdClass::Dir } else { FdClass::File };
            s.fds[fd as usize] = Some(FdInfo { path: target, class, append: flags & libc::O_APPEND != 0, ino });
        }
        s.after(f);
        Some(Ok(fd))
    });
    match r.flatten() {
        Some(Ok(fd)) => fd,
        Some(Err(e)) => errno(e),
        None => {
            let fd = real_open(dirfd, path, flags, mode);
            if fd >= 0 {
                with(|s| {
                    if (fd as usize) < MAXFD && fd > 2 {
                        s.fds[fd as usize] = None;
                    }
                });
            }
            fd
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(d, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(d, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with(|s| {
        if fd >= 3 && (fd as usize) < MAXFD {
            s.fds[fd as usize] = None;
        }
    });
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}

fn dup_track(old: c_int, new: c_int) {
    with(|s| {
        if new >= 0 && (new as usize) < MAXFD {
            s.fds[new as usize] = s.info(old);
        }
    });
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int };
    if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        dup_track(fd, r);
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let r = unsafe { libc::syscall(libc::SYS_dup, fd) as c_int };
    dup_track(fd, r);
    r
}

fn sys_ret(r: c_long) -> ssize_t {
    r as ssize_t
}

unsafe fn do_read(fd: c_int, n: size_t, real: impl Fn(usize) -> c_long) -> ssize_t {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let info = s.info(fd)?;
        let class = if info.class == FdClass::Stdin { Class::Stdin } else { Class::Read };
        let f = s.step(class, "read", &info.path);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e) as ssize_t);
        }
        let max = s.plan.seg_read;
        let want = s.cut(n, f, max);
        let r = sys_ret(real(want));
        if matches!(f, Some(Fault::Torn(_))) {
            s.crash();
        }
        s.after(f);
        Some(r)
    });
    match r.flatten() {
        Some(r) => r,
        None => sys_ret(real(n)),
    }
}

unsafe fn do_write(fd: c_int, data: &[u8], off: Option<off_t>) -> ssize_t {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let real = |n: usize| unsafe {
        match off {
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, data.as_ptr(), n, o),
            None => libc::syscall(libc::SYS_write, fd, data.as_ptr(), n),
        }
    };
    let r = with(|s| {
        let info = s.info(fd)?;
        let class = match info.class {
            FdClass::Stdout => Class::Stdout,
            FdClass::Stdin => return None,
            _ => Class::Write,
        };
        let f = s.step(class, "write", &info.path);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e) as ssize_t);
        }
        let max = s.plan.seg_write;
        let want = s.cut(data.len(), f, max);
        let pos = match off {
            Some(o) => o,
            None if info.append => fstat_ino(fd).2,
            None => unsafe { libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) },
        };
        let r = sys_ret(real(want));
        if r > 0 && class == Class::Write {
            s.log(format!("m {} write {} {pos} {}", s.step, info.ino, hex(&data[..r as usize])));
        }
        if matches!(f, Some(Fault::Torn(_))) {
            s.crash();
        }
        s.after(f);
        Some(r)
    });
    match r.flatten() {
        Some(r) => r,
        None => sys_ret(real(data.len())),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    unsafe { do_read(fd, n, |k| libc::syscall(libc::SYS_read, fd, buf, k)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe { do_read(fd, n, |k| libc::syscall(libc::SYS_pread64, fd, buf, k, off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if with(|s| s.info(fd).is_some()).unwrap_or(false) && cnt > 0 {
        let v = unsafe { *iov };
        return unsafe { read(fd, v.iov_base, v.iov_len) };
    }
    unsafe { libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if n == 0 {
        return unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t };
    }
    unsafe { do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    unsafe { do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if with(|s| s.info(fd).is_some()).unwrap_or(false) && cnt > 0 {
        let mut all = Vec::new();
        for i in 0..cnt as usize {
            let v = unsafe { *iov.add(i) };
            all.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
        }
        return unsafe { do_write(fd, &all, None) };
    }
    unsafe { libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t }
}

fn no_offload(fd: c_int) -> bool {
    with(|s| s.info(fd).is_some()).unwrap_or(false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, fl: u32) -> ssize_t {
    if no_offload(a) || no_offload(b) {
        return errno(libc::ENOSYS) as ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, fl) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    if no_offload(a) || no_offload(b) {
        return errno(libc::EINVAL) as ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_sendfile, a, b, off, n) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, fl: u32) -> ssize_t {
    if no_offload(a) || no_offload(b) {
        return errno(libc::EINVAL) as ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_splice, a, ao, b, bo, n, fl) as ssize_t }
}

unsafe fn do_sync(fd: c_int, nr: c_long) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let info = s.info(fd)?;
        let f = s.step(Class::Sync, "fsync", &info.path);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e));
        }
        // the scratch disk need not really be flushed
        if info.class == FdClass::Dir {
            s.log(format!("m {} syncdir {} {}", s.step, info.ino, esc(&info.path)));
        } else {
            s.log(format!("m {} sync {}", s.step, info.ino));
        }
        s.after(f);
        Some(0)
    });
    match r.flatten() {
        Some(r) => r,
        None => unsafe { libc::syscall(nr, fd) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fsync) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fdatasync) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let real = || unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int };
    let r = with(|s| {
        let info = s.info(fd)?;
        let f = s.step(Class::Meta, "ftruncate", &info.path);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e));
        }
        let r = real();
        if r == 0 {
            s.log(format!("m {} trunc {} {len}", s.step, info.ino));
        }
        s.after(f);
        Some(r)
    });
    match r.flatten() {
        Some(r) => r,
        None => real(),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    unsafe { ftruncate64(fd, len) }
}

/// A metadata operation on one or two paths.
fn meta(op: &str, a: String, b: Option<String>, real: impl Fn() -> c_int, rec: impl Fn(&str, Option<&str>) -> String) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let inside = s.in_root(&a) && b.as_deref().is_none_or(|b| s.in_root(b));
        if !inside {
            let p = match &b {
                Some(b) if !s.in_root(b) => b.clone(),
                _ => a.clone(),
            };
            s.escape(op, &p);
            return errno(libc::EACCES);
        }
        let f = s.step(Class::Meta, op, &a);
        if let Some(Fault::Err(e)) = f {
            return errno(e);
        }
        let r = real();
        if r == 0 {
            let line = rec(&a, b.as_deref());
            s.log(format!("m {} {line}", s.step));
        } else {
            let e = unsafe { *libc::__errno_location() };
            s.log(format!("result {} {e}", s.step));
            errno(e);
        }
        s.after(f);
        r
    });
    match r {
        Some(r) => r,
        None => real(),
    }
}

fn two(op: &'static str) -> impl Fn(&str, Option<&str>) -> String {
    move |a, b| format!("{op} {} {}", esc(a), esc(b.unwrap_or("")))
}
fn one(op: &'static str) -> impl Fn(&str, Option<&str>) -> String {
    move |a, _| format!("{op} {}", esc(a))
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    unsafe { renameat(libc::AT_FDCWD, a, libc::AT_FDCWD, b) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    meta(
        "rename",
        entry_path(da, a),
        Some(entry_path(db, b)),
        || unsafe { libc::syscall(libc::SYS_renameat2, da, a, db, b, 0) as c_int },
        two("rename"),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: u32) -> c_int {
    meta(
        "rename",
        entry_path(da, a),
        Some(entry_path(db, b)),
        || unsafe { libc::syscall(libc::SYS_renameat2, da, a, db, b, fl) as c_int },
        two(if fl & libc::RENAME_EXCHANGE != 0 { "exchange" } else { "rename" }),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    unsafe { linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    meta(
        "link",
        entry_path(da, a),
        Some(entry_path(db, b)),
        || unsafe { libc::syscall(libc::SYS_linkat, da, a, db, b, fl) as c_int },
        two("link"),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let t = cstr(a);
    meta(
        "symlink",
        entry_path(libc::AT_FDCWD, b),
        None,
        || unsafe { libc::syscall(libc::SYS_symlinkat, a, libc::AT_FDCWD, b) as c_int },
        |p, _| format!("symlink {} {}", esc(p), esc(&t)),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    unsafe { unlinkat(libc::AT_FDCWD, a, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    unsafe { unlinkat(libc::AT_FDCWD, a, libc::AT_REMOVEDIR) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    let op = if fl & libc::AT_REMOVEDIR != 0 { "rmdir" } else { "unlink" };
    meta(
        op,
        entry_path(d, a),
        None,
        || unsafe { libc::syscall(libc::SYS_unlinkat, d, a, fl) as c_int },
        one(op),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    unsafe { mkdirat(libc::AT_FDCWD, a, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdirat(d: c_int, a: *const c_char, mode: mode_t) -> c_int {
    // asking for a directory that exists changes nothing, wherever it is
    if kstat(d, a, 0).is_some() {
        return errno(libc::EEXIST);
    }
    meta(
        "mkdir",
        entry_path(d, a),
        None,
        || unsafe { libc::syscall(libc::SYS_mkdirat, d, a, mode as c_long) as c_int },
        one("mkdir"),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: mode_t) -> c_int {
    meta(
        "chmod",
        entry_path(libc::AT_FDCWD, a),
        None,
        || unsafe { libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD, a, mode as c_long) as c_int },
        |p, _| format!("chmod {} {mode:o}", esc(p)),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    let p = with(|s| s.info(fd).map(|i| i.path)).flatten().unwrap_or_else(|| readlink_fd(fd));
    meta(
        "chmod",
        p,
        None,
        || unsafe { libc::syscall(libc::SYS_fchmod, fd, mode as c_long) as c_int },
        |p, _| format!("chmod {} {mode:o}", esc(p)),
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn truncate64(a: *const c_char, len: off_t) -> c_int {
    let ino = kstat(libc::AT_FDCWD, a, 0).map(|s| s.st_ino).unwrap_or(0);
    meta(
        "truncate",
        entry_path(libc::AT_FDCWD, a),
        None,
        || unsafe { libc::syscall(libc::SYS_truncate, a, len) as c_int },
        |_, _| format!("trunc {ino} {len}"),
    )
}

/// A look-up: may be made to fail, has no effect.
fn lookup(dirfd: c_int, path: *const c_char, real: impl Fn() -> c_int) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let abs = abspath(dirfd, path);
        if !s.in_root(&abs) {
            return None;
        }
        let f = s.step(Class::Stat, "stat", &abs);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e));
        }
        let r = real();
        s.after(f);
        Some(r)
    });
    match r.flatten() {
        Some(r) => r,
        None => real(),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    let real = || unsafe { libc::syscall(libc::SYS_statx, d, path, flags, mask, buf) as c_int };
    if path.is_null() || cstr(path).is_empty() {
        return real(); // fstat of an open file
    }
    lookup(d, path, real)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    lookup(libc::AT_FDCWD, path, || unsafe {
        libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, buf, 0) as c_int
    })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    lookup(libc::AT_FDCWD, path, || unsafe {
        libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, buf, libc::AT_SYMLINK_NOFOLLOW) as c_int
    })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    lookup(libc::AT_FDCWD, path, || unsafe {
        libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, path, mode) as c_int
    })
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let r = with(|s| {
        let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        for b in out.iter_mut() {
            s.entropy = mix(s.entropy);
            *b = (s.entropy >> 32) as u8;
        }
        n as ssize_t
    });
    match r {
        Some(r) => r,
        None => unsafe { libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t },
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> c_int {
    match with(|s| s.plan.pid) {
        Some(p) if p != 0 => p,
        _ => unsafe { libc::syscall(libc::SYS_getpid) as c_int },
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if CLOCK_ON.load(Ordering::Acquire) && ON.load(Ordering::Acquire) {
        // every reading moves the clock by 1 microsecond, so that it is strictly increasing
        let ns = CLOCK_NS.fetch_add(1000, Ordering::AcqRel);
        unsafe {
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int }
}

fn spawn_fault(what: &str) -> Option<c_int> {
    with(|s| {
        let what = what.to_string();
        if s.plan.deny_spawn {
            s.escape("spawn", &what);
            return Some(libc::EACCES);
        }
        match s.step(Class::Spawn, "spawn", &what) {
            Some(Fault::Err(e)) => Some(e),
            _ => None,
        }
    })
    .flatten()
}

unsafe fn next(name: &std::ffi::CStr) -> *mut c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) }
}

// Directory listings come in an order the seed decides.
static mut LISTS: Vec<(usize, Vec<Vec<u64>>, Option<Vec<u64>>)> = Vec::new();

#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let f = with(|s| {
        let abs = entry_path(libc::AT_FDCWD, path);
        s.in_root(&abs).then(|| s.step(Class::Stat, "opendir", &abs)).flatten()
    })
    .flatten();
    if let Some(Fault::Err(e)) = f {
        errno(e);
        return std::ptr::null_mut();
    }
    unsafe {
        let g: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(c"opendir"));
        g(path)
    }
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    CALLS.fetch_add(1, Ordering::Relaxed);
    unsafe {
        let g: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64"));
        if !ON.load(Ordering::Acquire) {
            return g(d);
        }
        let known = with(|_| LISTS.iter().any(|l| l.0 == d as usize)).unwrap_or(false);
        if !known {
            let f = with(|s| s.step(Class::Stat, "readdir", "directory")).flatten();
            if let Some(Fault::Err(e)) = f {
                errno(e);
                return std::ptr::null_mut();
            }
            let mut all: Vec<Vec<u64>> = Vec::new();
            loop {
                let e = g(d);
                if e.is_null() {
                    break;
                }
                let n = (*e).d_reclen as usize;
                let mut v = vec![0u64; n.div_ceil(8)];
                std::ptr::copy_nonoverlapping(e as *const u8, v.as_mut_ptr() as *mut u8, n);
                all.push(v);
            }
            // By name first: what the disk says is not ours to repeat.
            all.sort_by_key(|v| {
                let e = v.as_ptr() as *const libc::dirent64;
                std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes().to_vec()
            });
            with(|s| {
                let mut r = Rng::derive(s.plan.entropy, "listing");
                for i in (1..all.len()).rev() {
                    all.swap(i, r.below(i + 1));
                }
                all.reverse();
                LISTS.push((d as usize, all, None));
            });
        }
        *libc::__errno_location() = 0;
        with(|_| {
            let l = LISTS.iter_mut().find(|l| l.0 == d as usize).unwrap();
            l.2 = l.1.pop();
            match &mut l.2 {
                Some(v) => v.as_mut_ptr() as *mut libc::dirent64,
                None => std::ptr::null_mut(),
            }
        })
        .unwrap_or(std::ptr::null_mut())
    }
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    with(|_| unsafe { LISTS.retain(|l| l.0 != d as usize) });
    unsafe {
        let g: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(c"closedir"));
        g(d)
    }
}

type SpawnFn = unsafe extern "C" fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawnp(pid: *mut c_int, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if let Some(e) = spawn_fault(&cstr(file)) {
        return e;
    }
    unsafe {
        let f: SpawnFn = std::mem::transmute(next(c"posix_spawnp"));
        f(pid, file, fa, at, argv, envp)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pidfd_spawnp(pid: *mut c_int, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if let Some(e) = spawn_fault(&cstr(file)) {
        return e;
    }
    unsafe {
        let p = next(c"pidfd_spawnp");
        if p.is_null() {
            return libc::ENOSYS;
        }
        let f: SpawnFn = std::mem::transmute(p);
        f(pid, file, fa, at, argv, envp)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fork() -> c_int {
    if let Some(e) = spawn_fault("fork") {
        return errno(e);
    }
    unsafe {
        let f: unsafe extern "C" fn() -> c_int = std::mem::transmute(next(c"fork"));
        f()
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(_fd: c_int, _a: *const c_void, _l: u32) -> c_int {
    if with(|s| s.escape("connect", "network")).is_some() {
        return errno(libc::ENETUNREACH);
    }
    unsafe { libc::syscall(libc::SYS_connect, _fd, _a, _l) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    let real = || unsafe { libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut c_void };
    if fd < 0 {
        return real();
    }
    let r = with(|s| {
        let info = s.info(fd)?;
        let f = s.step(Class::Read, "mmap", &info.path);
        if let Some(Fault::Err(e)) = f {
            // mapping a file is not interruptible
            let e = if e == libc::EINTR { libc::EAGAIN } else { e };
            errno(e);
            return Some(libc::MAP_FAILED);
        }
        Some(real())
    });
    match r.flatten() {
        Some(p) => p,
        None => real(),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    unsafe { mmap64(addr, len, prot, flags, fd, off) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let real = |op: c_int| unsafe { libc::syscall(libc::SYS_flock, fd, op) as c_int };
    let r = with(|s| {
        let info = s.info(fd)?;
        let mut f = s.step(Class::Meta, "flock", &info.path);
        if let Some(Fault::Err(e)) = f {
            return Some(errno(e));
        }
        if s.plan.gate.is_none() || op & (libc::LOCK_NB | libc::LOCK_UN) != 0 {
            let r = real(op);
            s.after(f);
            return Some(r);
        }
        // Another simulated process may hold it: ask again each time this one is scheduled.
        loop {
            let r = real(op | libc::LOCK_NB);
            if r == 0 || unsafe { *libc::__errno_location() } != libc::EWOULDBLOCK {
                s.after(f);
                return Some(r);
            }
            f = s.step(Class::Meta, "blocked", &info.path);
            if let Some(Fault::Err(e)) = f {
                return Some(errno(e));
            }
        }
    });
    match r.flatten() {
        Some(r) => r,
        None => real(op),
    }
}
