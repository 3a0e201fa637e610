//! One simulated run = one forked child process.
use simrt::spec::*;

extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, f: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn poll(p: *mut Poll, n: u64, t: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn personality(p: u64) -> i32;
    fn execv(p: *const u8, a: *const *const u8) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
#[repr(C)]
struct Poll {
    fd: i32,
    ev: i16,
    rev: i16,
}

/// Fixed addresses for everything: re-executes without address randomisation (best effort).
pub fn fix_addresses() {
    unsafe {
        const NORND: u64 = 0x0040000;
        let cur = personality(0xffffffff);
        if cur >= 0 && cur as u64 & NORND == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if personality(cur as u64 | NORND) >= 0 {
                std::env::set_var("SIM_REEXEC", "1");
                let args: Vec<Vec<u8>> = std::env::args()
                    .map(|a| {
                        let mut b = a.into_bytes();
                        b.push(0);
                        b
                    })
                    .collect();
                let mut ptrs: Vec<*const u8> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                execv(b"/proc/self/exe\0".as_ptr(), ptrs.as_ptr());
            }
        }
        let none = [0u64, 0u64];
        setrlimit(4, &none); // no core files
    }
}

const TIMEOUT_MS: i32 = 100_000;
/// Ends a process of the simulator (its runs end with it).
pub fn end(pid: i32) {
    unsafe {
        kill(pid, 9);
    }
}
pub static mut RUNS: u64 = 0;

pub fn run(plan: &Plan, record: bool, trace: bool) -> RunRes {
    unsafe {
        RUNS += 1;
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0);
            simrt::sched::WANT_TRACE = trace;
            let r = simsut::run_plan(plan, record);
            let b = serde_json::to_vec(&r).unwrap();
            let mut o = 0;
            while o < b.len() {
                let k = simrt::sched::raw6(1, fds[1] as i64, b.as_ptr().add(o) as i64, (b.len() - o) as i64, 0, 0, 0);
                if k <= 0 {
                    _exit(71);
                }
                o += k as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut buf = Vec::with_capacity(1 << 14);
        let mut tmp = [0u8; 65536];
        let mut timed = false;
        loop {
            let mut p = Poll { fd: fds[0], ev: 1, rev: 0 };
            let k = poll(&mut p, 1, TIMEOUT_MS);
            if k == 0 {
                timed = true;
                kill(pid, 9);
                break;
            }
            let n = read(fds[0], tmp.as_mut_ptr(), tmp.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0i32;
        waitpid(pid, &mut st, 0);
        let died = if timed {
            Some("hang: no progress within the wall-clock watchdog".to_string())
        } else if st & 0x7f != 0 {
            Some(format!("killed by signal {}", st & 0x7f))
        } else if (st >> 8) & 0xff == 70 {
            eprintln!("simulator error while running {}", serde_json::to_string(plan).unwrap());
            std::process::exit(70);
        } else if (st >> 8) & 0xff != 0 {
            Some(format!("exited with status {}", (st >> 8) & 0xff))
        } else {
            None
        };
        if died.is_some() {
            return RunRes { died, ..Default::default() };
        }
        match serde_json::from_slice(&buf) {
            Ok(r) => r,
            Err(e) => RunRes { died: Some(format!("no result: {}", e)), ..Default::default() },
        }
    }
}
