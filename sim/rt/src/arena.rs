//! The simulated memory: a fixed-address arena from which every allocation made by the
//! code under test is served. Placement, reuse and initial contents are decided by the
//! plan; every instrumented access is checked against the live allocations.
use crate::sched::{cur, violation};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 512 << 20;
/// Inputs (datasets) live in their own part of the arena, write-protected by the checker.
pub const INPUT_BASE: usize = BASE + SIZE;
pub const INPUT_SIZE: usize = 64 << 20;
const GRAN: usize = 16;
const NGRAN: usize = (SIZE + INPUT_SIZE) / GRAN;
const META_G: usize = 0x1100_0000_0000; // u32 per granule
const META_B: usize = 0x1200_0000_0000; // Block per block id
const MAX_BLOCKS: usize = 24 << 20;

pub const TAG_HARNESS: u32 = u32::MAX;
pub const TAG_INPUT: u32 = u32::MAX - 1;
pub const TAG_SHARED: u32 = u32::MAX - 2;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Block {
    pub start: u64,
    pub size: u64,
    pub cap: u32, // granules reserved
    pub tag: u32,
    pub live: u32,
    pub next: u32, // free list
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    Never,
    Lifo,
    Fifo,
    Random,
}

pub struct Arena {
    pub on: bool,
    pub bump: usize,
    pub input_bump: usize,
    pub nblocks: u32,
    pub reuse: Reuse,
    pub fill_alloc: u8,
    pub fill_free: bool,
    pub pad: usize, // extra placement offset in granules
    pub rnd: u64,
    pub live_bytes: u64,
    pub live_blocks: u64,
    pub peak_bytes: u64,
    pub n_alloc: u64,
    heads: [u32; 128],
    tails: [u32; 128],
    pub protect: bool,
}

pub static mut A: Arena = Arena {
    on: false,
    bump: BASE,
    input_bump: INPUT_BASE,
    nblocks: 1,
    reuse: Reuse::Lifo,
    fill_alloc: 0xA5,
    fill_free: true,
    pad: 0,
    rnd: 1,
    live_bytes: 0,
    live_blocks: 0,
    peak_bytes: 0,
    n_alloc: 0,
    heads: [0; 128],
    tails: [0; 128],
    protect: false,
};
/// Where allocations made outside of the code under test go: 0 = system, 1 = input region
/// (write-protected data), 2 = input region (shared objects)
pub static mut INPUT_MODE: u8 = 0;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn init(reuse: Reuse, fill_alloc: u8, fill_free: bool, pad: usize, rnd: u64) {
    unsafe {
        for (a, l) in [
            (BASE, SIZE + INPUT_SIZE),
            (META_G, NGRAN * 4),
            (META_B, MAX_BLOCKS * std::mem::size_of::<Block>()),
        ] {
            // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED
            let r = mmap(a as *mut u8, l, 3, 0x02 | 0x20 | 0x4000 | 0x10, -1, 0);
            assert!(r as usize == a, "cannot map the arena");
        }
        let s = &mut *(&raw mut A);
        s.reuse = reuse;
        s.fill_alloc = fill_alloc;
        s.fill_free = fill_free;
        s.pad = pad;
        s.rnd = rnd;
        s.bump = BASE + GRAN * (1 + pad);
        s.input_bump = INPUT_BASE + GRAN * (1 + pad);
        s.on = true;
    }
}

#[inline(always)]
unsafe fn gran(a: usize) -> *mut u32 {
    (META_G as *mut u32).add((a - BASE) / GRAN)
}
#[inline(always)]
pub unsafe fn block(i: u32) -> *mut Block {
    (META_B as *mut Block).add(i as usize)
}

fn class(granules: usize) -> Option<usize> {
    // exact classes up to 32 granules (512 bytes), then powers of two
    if granules <= 32 {
        Some(granules)
    } else {
        let c = 32 + (usize::BITS - (granules - 1).leading_zeros()) as usize - 5;
        if c < 64 {
            Some(c)
        } else {
            None
        }
    }
}
fn class_granules(granules: usize) -> usize {
    if granules <= 32 {
        granules
    } else {
        granules.next_power_of_two()
    }
}

pub unsafe fn alloc(layout: Layout, input: bool, zero: bool, tag: u32) -> *mut u8 {
    let s = &mut *(&raw mut A);
    let g = (layout.size() + GRAN - 1) / GRAN;
    let g = class_granules(g.max(1));
    let align = layout.align().max(GRAN);
    s.n_alloc += 1;
    let mut id = 0u32;
    let full = s.bump > BASE + SIZE / 4 * 3;
    if (s.reuse != Reuse::Never || full) && align == GRAN {
        if let Some(c) = class(g) {
            let c = c + 64 * input as usize;
            let skip = if s.reuse == Reuse::Random {
                s.rnd = crate::prng::mix(s.rnd);
                s.rnd & 3 == 0
            } else {
                false
            };
            if s.heads[c] != 0 && !skip {
                id = s.heads[c];
                s.heads[c] = (*block(id)).next;
                if s.heads[c] == 0 {
                    s.tails[c] = 0;
                }
            }
        }
    }
    if id == 0 {
        let b = if input { &mut s.input_bump } else { &mut s.bump };
        let start = (*b + align - 1) / align * align;
        let lim = if input { INPUT_BASE + INPUT_SIZE } else { BASE + SIZE };
        if start + g * GRAN + GRAN > lim || s.nblocks as usize >= MAX_BLOCKS {
            return std::ptr::null_mut();
        }
        *b = start + g * GRAN + GRAN; // one granule of red zone
        id = s.nblocks;
        s.nblocks += 1;
        *block(id) = Block { start: start as u64, size: 0, cap: g as u32, tag: 0, live: 0, next: 0 };
        for k in 0..g {
            *gran(start + k * GRAN) = id;
        }
    }
    let b = &mut *block(id);
    b.size = layout.size() as u64;
    b.tag = tag;
    b.live = 1;
    b.next = 0;
    if tag < TAG_SHARED {
        s.live_bytes += b.size;
        s.live_blocks += 1;
        if s.live_bytes > s.peak_bytes {
            s.peak_bytes = s.live_bytes;
        }
    }
    let p = b.start as *mut u8;
    if zero {
        std::ptr::write_bytes(p, 0, layout.size());
    } else {
        std::ptr::write_bytes(p, s.fill_alloc, layout.size());
    }
    p
}

pub unsafe fn free(p: *mut u8, layout: Layout) {
    let s = &mut *(&raw mut A);
    let a = p as usize;
    let id = *gran(a);
    let b = &mut *block(id);
    if id == 0 || b.start != a as u64 || b.live == 0 || b.size != layout.size() as u64 {
        violation("memory", format!("invalid free of {:#x}", a));
        return;
    }
    b.live = 0;
    if b.tag < TAG_SHARED {
        s.live_bytes -= b.size;
        s.live_blocks -= 1;
    }
    if s.fill_free {
        std::ptr::write_bytes(p, 0xDD, b.size as usize);
    }
    if let Some(c) = class(b.cap as usize) {
        let c = c + 64 * (a >= INPUT_BASE) as usize;
        match s.reuse {
            Reuse::Fifo => {
                if s.tails[c] != 0 {
                    (*block(s.tails[c])).next = id;
                } else {
                    s.heads[c] = id;
                }
                s.tails[c] = id;
                b.next = 0;
            }
            _ => {
                b.next = s.heads[c];
                s.heads[c] = id;
                if s.tails[c] == 0 {
                    s.tails[c] = id;
                }
            }
        }
    }
}

#[inline(always)]
pub fn contains(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE + INPUT_SIZE
}

/// Checks one access of the code under test; returns the tag of the block accessed.
#[inline(always)]
pub unsafe fn check(a: usize, n: usize, store: bool) -> u32 {
    let id = *gran(a);
    let b = &*block(id);
    if id == 0 || b.live == 0 || a as u64 + n as u64 > b.start + b.size {
        bad(a, n, store, id);
        return TAG_HARNESS;
    }
    if store && b.tag == TAG_INPUT && (*(&raw const A)).protect {
        input_store(a);
    }
    b.tag
}

#[cold]
#[inline(never)]
unsafe fn bad(a: usize, n: usize, store: bool, id: u32) {
    let b = &*block(id);
    let what = if id == 0 {
        "outside any allocation"
    } else if b.live == 0 {
        "to freed memory"
    } else {
        "past the end of its allocation"
    };
    violation(
        "memory",
        format!("{} of {} bytes {} (block of {} bytes)", if store { "store" } else { "load" }, n, what, b.size),
    );
    let _ = a;
}
#[cold]
#[inline(never)]
unsafe fn input_store(a: usize) {
    violation("input-write", format!("store into shared input data at offset {:#x}", a - INPUT_BASE));
}

pub struct SimAlloc;

#[inline(always)]
unsafe fn in_task() -> bool {
    let t = cur();
    !t.is_null() && (*t).harness == 0
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_task() {
            crate::sched::alloc_point();
            let p = alloc(l, false, false, (*cur()).op_uid);
            return p;
        }
        if INPUT_MODE != 0 {
            return alloc(l, true, false, if INPUT_MODE == 1 { TAG_INPUT } else { TAG_SHARED });
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_task() {
            crate::sched::alloc_point();
            return alloc(l, false, true, (*cur()).op_uid);
        }
        if INPUT_MODE != 0 {
            return alloc(l, true, true, if INPUT_MODE == 1 { TAG_INPUT } else { TAG_SHARED });
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) {
            if in_task() {
                crate::sched::alloc_point();
            }
            free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if contains(p as usize) || in_task() || INPUT_MODE != 0 {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        }
    }
}
