//! The simulated operating system: libc entry points used by std and by the code under test
//! are defined here, so calls made by a simulated task are answered by the plan.
use crate::sched::*;

type Start = extern "C" fn(*mut u8) -> *mut u8;
extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn __errno_location() -> *mut i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pthread_attr_init(a: *mut u8) -> i32;
    fn pthread_attr_setstack(a: *mut u8, p: *mut u8, n: usize) -> i32;
}
static mut R_CREATE: usize = 0;
static mut R_JOIN: usize = 0;
static mut R_GUARD: usize = 0;
static mut R_DETACH: usize = 0;
static mut R_GETENV: usize = 0;
static mut R_AFF: usize = 0;
static mut R_OPEN: usize = 0;
static mut R_OPEN64: usize = 0;

unsafe fn next_sym(n: &str) -> usize {
    dlsym(-1isize as *mut u8, n.as_ptr()) as usize
}
pub unsafe fn resolve() {
    R_CREATE = next_sym("pthread_create\0");
    R_JOIN = next_sym("pthread_join\0");
    R_GUARD = next_sym("pthread_attr_getguardsize\0");
    R_DETACH = next_sym("pthread_detach\0");
    R_GETENV = next_sym("getenv\0");
    R_AFF = next_sym("sched_getaffinity\0");
    R_OPEN = next_sym("open\0");
    R_OPEN64 = next_sym("open64\0");
}

unsafe fn errno(e: i64) -> i64 {
    *__errno_location() = e as i32;
    -1
}
#[inline(always)]
unsafe fn task() -> Option<*mut Task> {
    let t = cur();
    if t.is_null() || (*t).harness != 0 {
        None
    } else {
        Some(t)
    }
}

// ------------------------------------------------------------------ threads
const STACK: usize = 4 << 20;
pub unsafe fn real_pthread_create_at(id: usize, f: Start, a: *mut u8) -> u64 {
    let base = 0x1300_0000_0000usize + id * (STACK + (1 << 20));
    let p = mmap(base as *mut u8, STACK, 3, 0x02 | 0x20 | 0x4000 | 0x10, -1, 0);
    assert!(p as usize == base);
    let mut attr = [0u64; 16];
    pthread_attr_init(attr.as_mut_ptr() as *mut u8);
    pthread_attr_setstack(attr.as_mut_ptr() as *mut u8, p, STACK);
    let g: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(R_CREATE);
    let mut tid = 0u64;
    let r = g(&mut tid, attr.as_ptr() as *const u8, f, a);
    assert!(r == 0, "pthread_create: {}", r);
    tid
}
pub unsafe fn real_pthread_join(tid: u64) {
    let g: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(R_JOIN);
    let mut r = std::ptr::null_mut();
    g(tid, &mut r);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(tid: *mut u64, attr: *const u8, f: Start, a: *mut u8) -> i32 {
    if task().is_some() {
        *tid = spawn_raw(f, a);
        return 0;
    }
    if R_CREATE == 0 {
        resolve();
    }
    let g: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(R_CREATE);
    g(tid, attr, f, a)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(attr: *const u8, size: *mut usize) -> i32 {
    if R_GUARD == 0 {
        resolve();
    }
    let g: extern "C" fn(*const u8, *mut usize) -> i32 = std::mem::transmute(R_GUARD);
    let r = g(attr, size);
    // a simulated thread's stack lies between unmapped pages: std expects a guard
    if r == 0 && *size == 0 {
        *size = 4096;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(tid: u64, ret: *mut *mut u8) -> i32 {
    if let Some(t) = task() {
        let w = world();
        if let Some(&x) = w.tasks.iter().find(|&&x| (*x).tid == tid) {
            while (*x).st != St::Done {
                block(t, St::Join((*x).id), u64::MAX);
            }
            if !ret.is_null() {
                *ret = std::ptr::null_mut();
            }
            return 0;
        }
    }
    if R_JOIN == 0 {
        resolve();
    }
    let g: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(R_JOIN);
    g(tid, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(tid: u64) -> i32 {
    if task().is_some() {
        return 0; // the simulator joins every thread itself
    }
    if R_DETACH == 0 {
        resolve();
    }
    let g: extern "C" fn(u64) -> i32 = std::mem::transmute(R_DETACH);
    g(tid)
}

// ------------------------------------------------------------------ futex and other raw calls
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if let Some(t) = task() {
        match n {
            202 => return sim_futex(t, a as usize, b, c as u32, d as *const [i64; 2], e),
            318 => return sim_random(a as *mut u8, b as usize),
            228 => return clock_gettime(a as i32, b as *mut [i64; 2]) as i64,
            24 => {
                yield_now(t);
                return 0;
            }
            1 => return write(a as i32, b as *const u8, c as usize) as i64,
            _ => {}
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return errno(-r);
    }
    r
}

unsafe fn sim_futex(t: *mut Task, addr: usize, op: i64, val: u32, ts: *const [i64; 2], bits: i64) -> i64 {
    let _ = bits;
    let w = world();
    match op & 0x7f {
        0 | 9 => {
            step(0, 0, false);
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val {
                return errno(11);
            }
            w.stats.futex_waits += 1;
            log("futex-wait", 0, 0);
            let dl = if ts.is_null() {
                u64::MAX
            } else {
                let d = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
                if op & 0x7f == 0 {
                    w.now.saturating_add(d)
                } else {
                    d
                }
            };
            block(t, St::Futex(addr), dl);
            if (*t).timed_out {
                return errno(110);
            }
            0
        }
        1 | 10 => {
            let mut n = 0i64;
            for &x in w.tasks.iter() {
                if n >= val as i64 {
                    break;
                }
                if (*x).st == St::Futex(addr) {
                    (*x).st = St::Runnable;
                    (*x).deadline = u64::MAX;
                    n += 1;
                }
            }
            w.stats.futex_wakes += n as u64;
            if n > 0 {
                log("futex-wake", n as u64, 0);
                // give the woken task a chance, as the plan's seed says
                if w.rng.chance(0.5) {
                    yield_now(t);
                }
            }
            n
        }
        _ => errno(38),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = task() {
        yield_now(t);
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0) as i32
}

// ------------------------------------------------------------------ time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if let Some(_t) = task() {
        let w = world();
        let k = w.stats.clock_reads;
        w.stats.clock_reads += 1;
        for (at, j) in &w.env.jumps {
            if *at == k {
                w.stats.clock_jumps += 1;
                w.now = if *j >= 0 { w.now.saturating_add(*j as u64) } else { w.now.saturating_sub(j.unsigned_abs()) };
            }
        }
        w.now = w.now.saturating_add(w.env.tick);
        (*ts)[0] = (w.now / 1_000_000_000) as i64;
        (*ts)[1] = (w.now % 1_000_000_000) as i64;
        log("clock", w.now, 0);
        return 0;
    }
    let r = raw6(228, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        return errno(-r) as i32;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _z: *mut u8) -> i32 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    (*tv)[0] = ts[0];
    (*tv)[1] = ts[1] / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    if !p.is_null() {
        *p = ts[0];
    }
    ts[0]
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if let Some(t) = task() {
        let d = (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
        let when = if flags & 1 != 0 { d } else { world().now.saturating_add(d) };
        sleep_until(t, when);
        return 0;
    }
    let r = raw6(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if task().is_some() {
        return clock_nanosleep(1, 0, req, rem);
    }
    let r = raw6(35, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        return errno(-r) as i32;
    }
    0
}

// ------------------------------------------------------------------ entropy, environment, cpus, files
unsafe fn sim_random(p: *mut u8, n: usize) -> i64 {
    let w = world();
    w.stats.entropy_reads += 1;
    for i in 0..n {
        *p.add(i) = w.rng.u64() as u8;
    }
    log("entropy", n as u64, 0);
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if task().is_some() {
        return sim_random(p, n) as isize;
    }
    let r = raw6(318, p as i64, n as i64, flags as i64, 0, 0, 0);
    if r < 0 {
        return errno(-r) as isize;
    }
    r as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut u8, n: usize) -> i32 {
    getrandom(p, n, 0);
    0
}
static mut ENVBUF: [u8; 24] = [0; 24];
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const u8) -> *mut u8 {
    if R_GETENV == 0 {
        resolve();
    }
    if task().is_some() {
        let w = world();
        let mut l = 0;
        let mut h = w.env.seed;
        while *n.add(l) != 0 {
            h = crate::prng::mix(h ^ *n.add(l) as u64);
            l += 1;
        }
        let name = std::slice::from_raw_parts(n, l);
        if name.starts_with(b"RUST") {
            return std::ptr::null_mut();
        }
        w.stats.env_reads += 1;
        log("getenv", h, 0);
        {
            let _h = Harness::new();
            if let Some(v) = w.disk.vars.get(name) {
                return v.map_or(std::ptr::null_mut(), |b| b.as_ptr() as *mut u8);
            }
        }
        if !w.env.env_noise {
            return std::ptr::null_mut();
        }
        let b = &raw mut ENVBUF as *mut u8;
        let vals: [&[u8]; 6] = [b"1\0", b"0\0", b"true\0", b"4\0", b"0.5\0", b"on\0"];
        let v = vals[(h % 6) as usize];
        std::ptr::copy_nonoverlapping(v.as_ptr(), b, v.len());
        return b;
    }
    let g: extern "C" fn(*const u8) -> *mut u8 = std::mem::transmute(R_GETENV);
    g(n)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if task().is_some() {
        return world().pid;
    }
    raw6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if task().is_some() {
        let w = world();
        w.stats.cpu_reads += 1;
        std::ptr::write_bytes(set, 0, n);
        for i in 0..w.env.ncpu.min(n * 8) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    if R_AFF == 0 {
        resolve();
    }
    let g: extern "C" fn(i32, usize, *mut u8) -> i32 = std::mem::transmute(R_AFF);
    g(pid, n, set)
}
// ------------------------------------------------------------------ files
// An empty disk that lives as long as the simulated process: what one fit leaves on it,
// another can find.
pub struct Fd {
    path: Vec<u8>,
    pos: usize,
    append: bool,
}
#[derive(Default)]
pub struct Disk {
    files: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    fds: Vec<Option<Fd>>,
    vars: std::collections::BTreeMap<Vec<u8>, Option<&'static [u8]>>,
}
const FD0: i32 = 1000;
unsafe fn bytes(p: *const u8) -> Vec<u8> {
    let mut l = 0;
    while *p.add(l) != 0 {
        l += 1;
    }
    std::slice::from_raw_parts(p, l).to_vec()
}
fn fd_of(fd: i32) -> Option<&'static mut Fd> {
    world().disk.fds.get_mut((fd - FD0) as usize).and_then(|x| x.as_mut())
}
unsafe fn raw_ret(r: i64) -> i64 {
    if r < 0 {
        errno(-r)
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 {
    if task().is_some() {
        let w = world();
        w.stats.opens += 1;
        log("open", fl as u64, 0);
        let _h = Harness::new();
        let path = bytes(p);
        if [&b"/proc"[..], b"/sys", b"/etc", b"/dev"].iter().any(|s| path.starts_with(s)) {
            return errno(2) as i32;
        }
        let d = &mut w.disk;
        let exists = d.files.contains_key(&path);
        if !exists && fl & 0o100 == 0 {
            return errno(2) as i32;
        }
        if exists && fl & 0o300 == 0o300 {
            return errno(17) as i32;
        }
        if !exists || fl & 0o1000 != 0 {
            d.files.insert(path.clone(), vec![]);
        }
        d.fds.push(Some(Fd { path, pos: 0, append: fl & 0o2000 != 0 }));
        return FD0 + d.fds.len() as i32 - 1;
    }
    raw_ret(raw6(2, p as i64, (fl | 0o100000) as i64, mode as i64, 0, 0, 0)) as i32
}
unsafe fn file_write(f: &mut Fd, p: *const u8, n: usize) -> isize {
    let _h = Harness::new();
    let t = cur();
    (*t).op_writes += 1;
    world().stats.file_writes += 1;
    log("file write", n as u64, 0);
    let b = world().disk.files.entry(f.path.clone()).or_default();
    let at = if f.append { b.len() } else { f.pos };
    if b.len() < at + n {
        b.resize(at + n, 0);
    }
    b[at..at + n].copy_from_slice(std::slice::from_raw_parts(p, n));
    f.pos = at + n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if task().is_some() && fd >= FD0 {
        let _h = Harness::new();
        return match fd_of(fd) {
            None => errno(9) as isize,
            Some(f) => {
                let b = world().disk.files.entry(f.path.clone()).or_default();
                let k = n.min(b.len().saturating_sub(f.pos));
                std::ptr::copy_nonoverlapping(b.as_ptr().add(f.pos.min(b.len())), p, k);
                f.pos += k;
                log("file read", k as u64, 0);
                k as isize
            }
        };
    }
    raw_ret(raw6(0, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= FD0 && crate::sched::has_world() && !cur().is_null() {
        let _h = Harness::new();
        if let Some(x) = world().disk.fds.get_mut((fd - FD0) as usize) {
            *x = None;
            return 0;
        }
    }
    raw_ret(raw6(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if task().is_some() && fd >= FD0 {
        let _h = Harness::new();
        return match fd_of(fd) {
            None => errno(9),
            Some(f) => {
                let end = world().disk.files.entry(f.path.clone()).or_default().len() as i64;
                let at = off + [0, f.pos as i64, end][(whence as usize).min(2)];
                if at < 0 {
                    return errno(22);
                }
                f.pos = at as usize;
                at
            }
        };
    }
    raw_ret(raw6(8, fd as i64, off, whence as i64, 0, 0, 0))
}
/// Size of a file by descriptor or path; None = missing.
unsafe fn size_of(fd: i32, p: *const u8) -> Option<usize> {
    let _h = Harness::new();
    let path = if p.is_null() || *p == 0 { fd_of(fd)?.path.clone() } else { bytes(p) };
    world().disk.files.get(&path).map(|b| b.len())
}
unsafe fn put_stat(st: *mut u8, n: Option<usize>) -> i32 {
    match n {
        None => errno(2) as i32,
        Some(n) => {
            std::ptr::write_bytes(st, 0, 144);
            *(st.add(16) as *mut u64) = 1;
            *(st.add(24) as *mut u32) = 0o100644;
            *(st.add(48) as *mut i64) = n as i64;
            *(st.add(56) as *mut i64) = 4096;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
    if task().is_some() && fd >= FD0 {
        return put_stat(st, size_of(fd, std::ptr::null()));
    }
    raw_ret(raw6(5, fd as i64, st as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, st: *mut u8) -> i32 {
    if task().is_some() {
        return put_stat(st, size_of(-1, p));
    }
    raw_ret(raw6(4, p as i64, st as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, st: *mut u8) -> i32 {
    if task().is_some() {
        return put_stat(st, size_of(-1, p));
    }
    raw_ret(raw6(6, p as i64, st as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, p: *const u8, fl: i32, mask: u32, st: *mut u8) -> i32 {
    if task().is_some() && (fd >= FD0 || (!p.is_null() && *p != 0)) {
        return match size_of(fd, p) {
            None => errno(2) as i32,
            Some(n) => {
                std::ptr::write_bytes(st, 0, 256);
                *(st as *mut u32) = 0x7ff;
                *(st.add(4) as *mut u32) = 4096;
                *(st.add(16) as *mut u32) = 1;
                *(st.add(28) as *mut u16) = 0o100644;
                *(st.add(40) as *mut u64) = n as u64;
                0
            }
        };
    }
    raw_ret(raw6(332, fd as i64, p as i64, fl as i64, mask as i64, st as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    if task().is_some() {
        let _h = Harness::new();
        let path = bytes(p);
        return match world().disk.files.remove(&path) {
            None => errno(2) as i32,
            Some(_) => 0,
        };
    }
    raw_ret(raw6(87, p as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if task().is_some() {
        let _h = Harness::new();
        let (a, b) = (bytes(a), bytes(b));
        return match world().disk.files.remove(&a) {
            None => errno(2) as i32,
            Some(x) => {
                world().disk.files.insert(b, x);
                0
            }
        };
    }
    raw_ret(raw6(82, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
    if task().is_some() {
        return 0;
    }
    raw_ret(raw6(83, p as i64, mode as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const u8) -> i32 {
    if task().is_some() {
        return 0;
    }
    raw_ret(raw6(84, p as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if task().is_some() && fd >= FD0 {
        let _h = Harness::new();
        if let Some(f) = fd_of(fd) {
            world().disk.files.entry(f.path.clone()).or_default().resize(n.max(0) as usize, 0);
        }
        return 0;
    }
    raw_ret(raw6(77, fd as i64, n, 0, 0, 0, 0)) as i32
}
macro_rules! sync {
    ($($f:ident $n:expr),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: i32) -> i32 {
            if task().is_some() && fd >= FD0 {
                return 0;
            }
            raw_ret(raw6($n, fd as i64, 0, 0, 0, 0, 0)) as i32
        }
    )*};
}
sync!(fsync 74, fdatasync 75);

/// The environment a fit changes is kept per simulated process.
unsafe fn set_var(n: *const u8, v: Option<*const u8>, replace: bool) {
    let _h = Harness::new();
    let d = &mut world().disk;
    let name = bytes(n);
    if !replace && d.vars.contains_key(&name) {
        return;
    }
    let v = v.map(|p| {
        let mut b = bytes(p);
        b.push(0);
        &*Box::leak(b.into_boxed_slice())
    });
    d.vars.insert(name, v);
}
#[no_mangle]
pub unsafe extern "C" fn setenv(n: *const u8, v: *const u8, replace: i32) -> i32 {
    if task().is_some() {
        set_var(n, Some(v), replace != 0);
        return 0;
    }
    let g: extern "C" fn(*const u8, *const u8, i32) -> i32 = std::mem::transmute(next_sym("setenv\0"));
    g(n, v, replace)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(n: *const u8) -> i32 {
    if task().is_some() {
        set_var(n, None, true);
        return 0;
    }
    let g: extern "C" fn(*const u8) -> i32 = std::mem::transmute(next_sym("unsetenv\0"));
    g(n)
}

// ------------------------------------------------------------------ output
unsafe fn sim_write(t: *mut Task, fd: i32, p: *const u8, n: usize) -> isize {
    let w = world();
    let k = (*t).writes;
    (*t).writes += 1;
    (*t).op_writes += 1;
    w.stats.writes += 1;
    crate::sched::out_point(t);
    step(0, 0, false);
    let mut o = Wr::Ok;
    for f in &w.wfaults {
        if f.task == (*t).id {
            if let Some((_, x)) = f.at.iter().find(|(i, _)| *i == k) {
                o = x.clone();
            } else if let (Some(from), Some(x)) = (f.from, &f.then) {
                if k >= from {
                    o = x.clone();
                }
            }
        }
    }
    let r = match o {
        Wr::Ok => n as isize,
        Wr::Short(m) => {
            w.stats.wf_short += 1;
            n.min(m.max(1)) as isize
        }
        Wr::Zero => {
            w.stats.wf_zero += 1;
            0
        }
        Wr::Err(e) => {
            w.stats.wf_err += 1;
            errno(e as i64) as isize
        }
        Wr::Stall(d) => {
            w.stats.wf_stall += 1;
            let when = w.now.saturating_add(d);
            sleep_until(t, when);
            n as isize
        }
    };
    log("write", fd as u64, r as u64);
    if r > 0 {
        w.stats.write_bytes += r as u64;
        let _h = Harness::new();
        if w.out.len() < 1 << 19 {
            w.out.extend_from_slice(std::slice::from_raw_parts(p, r as usize));
        }
    }
    r
}
/// std's line-buffered output looks for line ends with it: a scheduling point of output.
#[no_mangle]
pub unsafe extern "C" fn memrchr(s: *const u8, c: i32, n: usize) -> *const u8 {
    if let Some(t) = task() {
        crate::sched::out_point(t);
    }
    for i in (0..n).rev() {
        if *s.add(i) == c as u8 {
            return s.add(i);
        }
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if let Some(t) = task() {
        if let Some(f) = fd_of(fd) {
            return file_write(f, p, n);
        }
        return sim_write(t, fd, p, n);
    }
    if crate::sched::has_world() && world().draining {
        world().drained += n as u64;
        return n as isize;
    }
    let r = raw6(1, fd as i64, p as i64, n as i64, 0, 0, 0);
    if r < 0 {
        return errno(-r) as isize;
    }
    r as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    if let Some(t) = task() {
        if let Some(f) = fd_of(fd) {
            let mut total = 0;
            for i in 0..n as usize {
                let v = &*iov.add(i);
                total += file_write(f, v[0] as *const u8, v[1]);
            }
            return total;
        }
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v[1] == 0 {
                continue;
            }
            let r = sim_write(t, fd, v[0] as *const u8, v[1]);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v[1] {
                break;
            }
        }
        return total;
    }
    let r = raw6(20, fd as i64, iov as i64, n as i64, 0, 0, 0);
    if r < 0 {
        return errno(-r) as isize;
    }
    r as isize
}

// ------------------------------------------------------------------ instrumentation
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    step(0, 0, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    step(0, 0, false)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
macro_rules! acc {
    ($($l:ident $s:ident $n:expr),*) => {$(
        #[no_mangle] pub extern "C" fn $l(p: *const u8) { step(p as usize, $n, false) }
        #[no_mangle] pub extern "C" fn $s(p: *mut u8) { step(p as usize, $n, true) }
    )*};
}
acc!(__sanitizer_cov_load1 __sanitizer_cov_store1 1, __sanitizer_cov_load2 __sanitizer_cov_store2 2,
     __sanitizer_cov_load4 __sanitizer_cov_store4 4, __sanitizer_cov_load8 __sanitizer_cov_store8 8,
     __sanitizer_cov_load16 __sanitizer_cov_store16 16);
