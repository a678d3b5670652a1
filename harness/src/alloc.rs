//! A checking global allocator.
//!
//! Every block carries a header with the layout it was requested with and a trailer.  Releasing a
//! block with another layout, releasing it twice and writing outside of it (or into it after its
//! release, while it is in quarantine) are recorded, never acted upon.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checking;

const LIVE: u64 = 0x5AFE_B10C_A110_C8ED;
const FREED: u64 = 0xDEAD_B10C_F4EE_D000;
const HDR: usize = 32;
const TRL: usize = 16;
const TRAIL: u8 = 0xC7;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
const QN: usize = 64;
const QMAX: usize = 1 << 16;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
static BAD_A: AtomicU64 = AtomicU64::new(0);
static BAD_B: AtomicU64 = AtomicU64::new(0);
static QPOS: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut Q: [*mut u8; QN] = [std::ptr::null_mut(); QN];

fn bad(kind: usize, a: u64, b: u64) {
    if BAD.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
        BAD_A.store(a, Relaxed);
        BAD_B.store(b, Relaxed);
    }
}

#[repr(C)]
struct Hdr {
    size: usize,
    align: usize,
    off: usize,
    magic: u64,
}

#[inline]
unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HDR) as *mut Hdr
}
#[inline]
fn full(size: usize, align: usize) -> Option<(Layout, usize)> {
    let off = align.max(HDR);
    let total = size.checked_add(off)?.checked_add(TRL)?;
    Some((Layout::from_size_align(total, align.max(16)).ok()?, off))
}

unsafe fn check_trailer(p: *mut u8, size: usize) {
    for i in 0..TRL {
        if *p.add(size + i) != TRAIL {
            bad(4, size as u64, i as u64);
            return;
        }
    }
}

unsafe fn release(p: *mut u8) {
    let h = &*hdr(p);
    if let Some((l, off)) = full(h.size, h.align) {
        System.dealloc(p.sub(off), l);
    }
}

unsafe fn check_dead(p: *mut u8) {
    let h = &*hdr(p);
    if h.magic != FREED {
        bad(5, h.size as u64, 0);
        return;
    }
    for i in 0..h.size {
        if *p.add(i) != DEAD {
            bad(6, h.size as u64, i as u64);
            return;
        }
    }
    check_trailer(p, h.size);
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            return System.alloc(l);
        }
        let (fl, off) = match full(l.size(), l.align()) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        let base = System.alloc(fl);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        *hdr(p) = Hdr { size: l.size(), align: l.align(), off, magic: LIVE };
        std::ptr::write_bytes(p, FRESH, l.size());
        std::ptr::write_bytes(p.add(l.size()), TRAIL, TRL);
        if l.size() == 0 {
            bad(7, 0, 0);
        }
        BLOCKS.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if cfg!(miri) {
            return System.dealloc(p, l);
        }
        let h = &mut *hdr(p);
        if h.magic == FREED {
            bad(1, l.size() as u64, l.align() as u64);
            return;
        }
        if h.magic != LIVE {
            bad(2, l.size() as u64, l.align() as u64);
            return;
        }
        if h.size != l.size() || h.align != l.align() {
            bad(3, (h.size as u64) << 32 | h.align as u64, (l.size() as u64) << 32 | l.align() as u64);
        }
        check_trailer(p, h.size);
        h.magic = FREED;
        std::ptr::write_bytes(p, DEAD, h.size);
        BLOCKS.fetch_sub(1, Relaxed);
        if h.size > QMAX {
            release(p);
            return;
        }
        while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
        let i = QPOS.fetch_add(1, Relaxed) % QN;
        let q = &mut *std::ptr::addr_of_mut!(Q);
        let old = std::mem::replace(&mut q[i], p);
        LOCK.store(false, std::sync::atomic::Ordering::Release);
        if !old.is_null() {
            check_dead(old);
            release(old);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if cfg!(miri) {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let np = self.alloc(nl);
        if !np.is_null() {
            // Copy what the block really has, in case the layouts do not match.
            let h = &*hdr(p);
            let have = if h.magic == LIVE { h.size } else { 0 };
            std::ptr::copy_nonoverlapping(p, np, have.min(l.size()).min(new));
            self.dealloc(p, l);
        }
        np
    }
}

/// Number of blocks currently allocated.
pub fn live() -> i64 {
    BLOCKS.load(Relaxed)
}
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn reset() {
    BAD.store(0, Relaxed);
}

/// Check the blocks in quarantine and report the first violation since the last reset.
pub fn violation() -> Option<String> {
    if cfg!(miri) {
        return None;
    }
    unsafe {
        let q = &*std::ptr::addr_of!(Q);
        for i in 0..QN {
            let p = q[i];
            if !p.is_null() {
                check_dead(p);
            }
        }
    }
    let (a, b) = (BAD_A.load(Relaxed), BAD_B.load(Relaxed));
    Some(match BAD.load(Relaxed) {
        0 => return None,
        1 => format!("memory released twice (as size {} align {})", a, b),
        2 => format!("memory released that was never allocated (as size {} align {})", a, b),
        3 => format!(
            "memory requested as size {} align {} released as size {} align {}",
            a >> 32, a & 0xffff_ffff, b >> 32, b & 0xffff_ffff
        ),
        4 => format!("write past the end of a block of size {} (offset +{})", a, b),
        5 => format!("header of a released block of size {} overwritten", a),
        6 => format!("write after release to a block of size {} (offset {})", a, b),
        7 => "allocation of size zero".to_string(),
        k => format!("allocator violation {}", k),
    })
}
