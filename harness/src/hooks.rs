//! The interface between the harness and the symbolic executor.  In the IR build the functions
//! are undefined symbols that the executor interprets; in the native build (feature `native`)
//! they are fed from a concrete counterexample so that the same scenario replays on real code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn verif_sym(p: *mut u8, n: usize);
        fn verif_assume(c: bool);
        fn verif_fail(code: u32) -> !;
        fn verif_note(x: u64);
        fn verif_cover(c: u32);
        fn verif_live() -> i64;
        fn verif_flag(k: u32, v: u64);
        fn verif_threads(f: usize, n: u64, bound: u64);
    }
    pub fn sym(b: &mut [u8]) {
        unsafe { verif_sym(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { verif_assume(c) }
    }
    #[cold]
    #[inline(never)]
    pub fn fail(c: u32) -> ! {
        unsafe { verif_fail(c) }
    }
    pub fn note(x: u64) {
        unsafe { verif_note(x) }
    }
    #[inline(never)]
    pub fn cover(c: u32) {
        unsafe { verif_cover(c) }
    }
    pub fn live() -> i64 {
        unsafe { verif_live() }
    }
    pub fn flag(k: u32, v: u64) {
        unsafe { verif_flag(k, v) }
    }
    /// run f(0) .. f(n-1) at the same time, with at most `bound` interruptions of a running thread
    #[allow(dead_code)]
    #[inline(never)]
    pub fn threads(f: fn(u64), n: u64, bound: u64) {
        unsafe { verif_threads(f as usize, n, bound) }
    }
    #[inline(always)]
    pub fn seen(_v: &[u8]) {}
}

#[cfg(feature = "native")]
pub mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

    /// counts live allocations and the largest request, like the executor's heap model
    pub struct Counting;
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static LARGEST: AtomicU64 = AtomicU64::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Ordering::Relaxed);
            LARGEST.fetch_max(l.size() as u64, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Ordering::Relaxed);
            LARGEST.fetch_max(l.size() as u64, Ordering::Relaxed);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LARGEST.fetch_max(n as u64, Ordering::Relaxed);
            System.realloc(p, l, n)
        }
    }

    #[derive(Default)]
    pub struct Ctx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub notes: Vec<u64>,
        pub covers: Vec<u32>,
    }
    thread_local! {
        pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    }
    pub struct Assume;
    pub struct Fail(pub u32);

    pub fn sym(b: &mut [u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            for x in b {
                let p = c.pos;
                *x = c.input.get(p).copied().unwrap_or(0);
                c.pos += 1;
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Assume));
        }
    }
    pub fn fail(c: u32) -> ! {
        std::panic::resume_unwind(Box::new(Fail(c)));
    }
    pub fn note(x: u64) {
        let l = LIVE.load(Ordering::Relaxed);
        CTX.with(|c| c.borrow_mut().notes.push(x));
        LIVE.store(l, Ordering::Relaxed);
    }
    pub fn cover(x: u32) {
        let l = LIVE.load(Ordering::Relaxed);
        CTX.with(|c| c.borrow_mut().covers.push(x));
        LIVE.store(l, Ordering::Relaxed);
    }
    pub fn live() -> i64 {
        LIVE.load(Ordering::Relaxed)
    }
    pub fn flag(_k: u32, _v: u64) {}
    /// real threads, many times over
    #[allow(dead_code)]
    pub fn threads(f: fn(u64), n: u64, _bound: u64) {
        let rounds: u64 = std::env::var("VERIF_ROUNDS").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
        let go = std::sync::Barrier::new(4.max(n as usize));
        let r = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4.max(n))
                .map(|k| {
                    let go = &go;
                    s.spawn(move || {
                        go.wait();
                        let start = std::time::Instant::now();
                        for _ in 0..rounds {
                            if start.elapsed().as_secs() >= 5 {
                                break;
                            }
                            f(k);
                        }
                    })
                })
                .collect();
            let mut first = None;
            for h in hs {
                if let Err(e) = h.join() {
                    first.get_or_insert(e);
                }
            }
            first
        });
        if let Some(e) = r {
            std::panic::resume_unwind(e);
        }
    }
    pub static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub static FILE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    /// remember the class file under test (mode `dump`)
    pub fn seen(v: &[u8]) {
        if KEEP.load(Ordering::Relaxed) {
            *FILE.lock().unwrap() = v.to_vec();
        }
    }
}

#[allow(unused_imports)]
pub use imp::threads;
pub use imp::{assume, cover, fail, flag, live, note, seen, sym};

/// fresh symbolic integers
pub fn sym_u8() -> u8 {
    let mut b = [0u8; 1];
    sym(&mut b);
    b[0]
}
pub fn sym_u16() -> u16 {
    let mut b = [0u8; 2];
    sym(&mut b);
    u16::from_be_bytes(b)
}
