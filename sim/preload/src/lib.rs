//! LD_PRELOAD form of simos: activated by the environment variable SIMOS_PLAN (a plan file).

#[used]
#[unsafe(link_section = ".init_array")]
static INIT: extern "C" fn() = init;

extern "C" fn init() {
    // helper programs started by the simulated process run undisturbed
    let plan = std::env::var("SIMOS_PLAN");
    unsafe {
        libc::unsetenv(c"LD_PRELOAD".as_ptr());
        libc::unsetenv(c"SIMOS_PLAN".as_ptr());
    }
    let Ok(path) = plan else { return };
    let Ok(text) = std::fs::read_to_string(&path) else {
        unsafe { libc::_exit(125) }
    };
    match simos::Plan::from_text(&text) {
        Some(p) => simos::init(p),
        None => unsafe { libc::_exit(125) },
    }
}
