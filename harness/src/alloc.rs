//! Counting allocator: live block/byte balance, and (on request) poisoning + quarantine of freed blocks so that a use after
//! free of the implementation changes observable behaviour instead of going unnoticed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;

pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static POISON: AtomicBool = AtomicBool::new(false);

const QN: usize = 4096;
static mut QUEUE: [(*mut u8, usize, usize); QN] = [(std::ptr::null_mut(), 0, 1); QN];
static mut QPOS: usize = 0;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        if POISON.load(Relaxed) && l.size() <= 4096 {
            std::ptr::write_bytes(p, 0xDD, l.size());
            let (op, os, oa) = QUEUE[QPOS];
            QUEUE[QPOS] = (p, l.size(), l.align());
            QPOS = (QPOS + 1) % QN;
            if !op.is_null() { System.dealloc(op, Layout::from_size_align_unchecked(os, oa)); }
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if POISON.load(Relaxed) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            return q;
        }
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn live() -> (i64, i64) { (BLOCKS.load(Relaxed), BYTES.load(Relaxed)) }
