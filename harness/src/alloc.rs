//! The allocator of the harness. A request that no machine of this kind could
//! satisfy would end the process; here it is answered with address space that
//! is not backed by memory, and remembered, so that the case can be judged:
//! an allocation whose size comes from a damaged field is a crash.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

/// Requests from this size on are refused by a machine with 32 GB.
const HUGE: usize = 64 << 30;
/// Requests from this size on get address space of which only the first part
/// can be used: code that fills it would fill the memory of the machine.
const LARGE: usize = 1 << 30;
/// The most address space given to one request.
const MOST: usize = 1 << 40;

pub struct Alloc;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

thread_local! {
    static REFUSED: RefCell<Option<String>> = const { RefCell::new(None) };
    static BUSY: RefCell<bool> = const { RefCell::new(false) };
}

/// Bytes a thread may ask for in one case, over all its requests. Cases ask
/// for less than a hundredth of this; work that does not end, or that is
/// exponential in the size of the case, asks for more sooner or later. Unlike
/// the time that a case takes, this does not depend on the machine.
const BUDGET: u64 = 3 << 30;

/// Single requests from this size on are not counted: memory that is asked
/// for in one piece, because of a number in the input, is not used up by that.
const ONE: usize = 64 << 20;

thread_local! {
    static SPENT: Cell<u64> = const { Cell::new(0) };
}

/// A new case begins; what the last one asked for.
pub fn begin() -> u64 {
    SPENT.with(|s| s.replace(0))
}

fn spend(size: usize) {
    let _ = SPENT.try_with(|s| {
        let n = s.get().saturating_add(size as u64);
        s.set(n);
        if n > BUDGET {
            s.set(0);
            eprintln!("one case asks for more than {} GB of memory in total", BUDGET >> 30);
            std::process::abort();
        }
    });
}

fn note(size: usize) {
    if size < HUGE {
        return;
    }
    let _ = BUSY.try_with(|b| {
        if std::mem::replace(&mut *b.borrow_mut(), true) {
            return;
        }
        let trace = std::backtrace::Backtrace::force_capture().to_string();
        let site = trace
            .lines()
            .filter_map(|l| l.trim().strip_prefix("at "))
            .find(|l| l.contains("/registry/src/") || l.contains("/repo/"))
            .unwrap_or("an unknown place");
        let site = site.rsplit_once(':').map_or(site, |x| x.0);
        let msg = format!("{site}: an allocation of {size} bytes is asked for");
        let _ = REFUSED.try_with(|r| {
            r.borrow_mut().get_or_insert(msg);
        });
        *b.borrow_mut() = false;
    });
}

/// The first impossible request of this thread since the last call.
pub fn refused() -> Option<String> {
    REFUSED.with(|r| r.borrow_mut().take())
}

unsafe fn map(size: usize) -> *mut u8 {
    note(size);
    // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
    let p = mmap(std::ptr::null_mut(), size.min(MOST), 3, 0x4022, -1, 0);
    if p as isize == -1 {
        return std::ptr::null_mut();
    }
    if size > LARGE {
        mprotect(p.add(LARGE), size.min(MOST) - LARGE, 0);
    }
    p
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() < LARGE {
            if l.size() < ONE {
                spend(l.size());
            }
            System.alloc(l)
        } else {
            map(l.size())
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() < LARGE {
            if l.size() < ONE {
                spend(l.size());
            }
            System.alloc_zeroed(l)
        } else {
            map(l.size())
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < LARGE {
            System.dealloc(p, l)
        } else {
            munmap(p, l.size().min(MOST));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() < LARGE && new < LARGE {
            if new < ONE || new / 4 <= l.size() {
                spend(new.saturating_sub(l.size()));
            }
            return System.realloc(p, l, new);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new).min(LARGE));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;
