//! Checking global allocator: records the layout, scope and owning thread's live bytes of every block, compares the
//! layout on release, detects double release, and parks a thread whose memory use explodes (the watchdog reports it).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub const TAG_HARNESS: usize = 0;
/// Memory obtained by (or handed over to) the library, outside its receive path.
pub const TAG_LIB: usize = 1;
/// Memory obtained while a received frame is parsed and handled.
pub const TAG_RX: usize = 2;
pub const TAGS: usize = 3;

const MAGIC_LIVE: u64 = 0x5AFE_B10C_C0FF_EE01;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_C0FF_EE02;
const HDR: usize = 48;
const QUARANTINE: usize = 2048;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    tag: usize,
    thread: usize,
    base_off: usize,
}

thread_local! {
    static TAG: Cell<usize> = const { Cell::new(0) };
    static LIVE: [Cell<isize>; TAGS] = const { [Cell::new(0), Cell::new(0), Cell::new(0)] };
    static BLOCKS: [Cell<isize>; TAGS] = const { [Cell::new(0), Cell::new(0), Cell::new(0)] };
    static THREAD_ID: Cell<usize> = const { Cell::new(0) };
    static FAULT: Cell<(u32, usize, usize, usize, usize)> = const { Cell::new((0, 0, 0, 0, 0)) };
    static QUAR_ON: Cell<bool> = const { Cell::new(false) };
    static QUAR_POS: Cell<usize> = const { Cell::new(0) };
    static QUAR: [Cell<*mut u8>; QUARANTINE] = const { [const { Cell::new(std::ptr::null_mut()) }; QUARANTINE] };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
}

static NEXT_THREAD: AtomicUsize = AtomicUsize::new(1);
pub static MEM_EXPLODED: AtomicBool = AtomicBool::new(false);
pub static MEM_EXPLODED_WORKER: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! { pub static WORKER: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub struct Checking;

#[global_allocator]
static GLOBAL: Checking = Checking;

fn thread_id() -> usize {
    THREAD_ID.with(|t| {
        if t.get() == 0 {
            t.set(NEXT_THREAD.fetch_add(1, Ordering::Relaxed));
        }
        t.get()
    })
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    /// released (size, align) differs from allocated (size, align)
    Layout { rel_size: usize, rel_align: usize, size: usize, align: usize },
    DoubleRelease { size: usize },
    ForeignBlock,
}

fn set_fault(kind: u32, a: usize, b: usize, c: usize, d: usize) {
    FAULT.with(|f| {
        if f.get().0 == 0 {
            f.set((kind, a, b, c, d));
        }
    });
}

pub fn take_fault() -> Option<Fault> {
    FAULT.with(|f| {
        let v = f.replace((0, 0, 0, 0, 0));
        match v.0 {
            0 => None,
            1 => Some(Fault::Layout { rel_size: v.1, rel_align: v.2, size: v.3, align: v.4 }),
            2 => Some(Fault::DoubleRelease { size: v.1 }),
            _ => Some(Fault::ForeignBlock),
        }
    })
}

unsafe fn sys_free(h: *mut Header) {
    let (size, align, off) = ((*h).size, (*h).align, (*h).base_off);
    let base = (h as *mut u8).sub(off);
    System.dealloc(base, Layout::from_size_align_unchecked(size + HDR + off, align.max(16)));
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        // Header sits directly before the block; the prefix keeps the block aligned.
        let align = layout.align().max(16);
        let prefix = (HDR + align - 1) / align * align;
        let off = prefix - HDR;
        let tag = TAG.with(|t| t.get());
        let live = LIVE.with(|l| {
            let v = l[tag].get() + layout.size() as isize;
            l[tag].set(v);
            v
        });
        BLOCKS.with(|b| b[tag].set(b[tag].get() + 1));
        if live > CAP.with(|c| c.get()) {
            MEM_EXPLODED_WORKER.store(WORKER.with(|w| w.get()), Ordering::SeqCst);
            MEM_EXPLODED.store(true, Ordering::SeqCst);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
        }
        let base = System.alloc(Layout::from_size_align_unchecked(layout.size() + HDR + off, align));
        if base.is_null() {
            return base;
        }
        let h = base.add(off) as *mut Header;
        *h = Header { magic: MAGIC_LIVE, size: layout.size(), align: layout.align(), tag, thread: thread_id(), base_off: off };
        (h as *mut u8).add(HDR)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let h = ptr.sub(HDR) as *mut Header;
        if (*h).magic == MAGIC_DEAD {
            set_fault(2, layout.size(), 0, 0, 0);
            return;
        }
        if (*h).magic != MAGIC_LIVE {
            set_fault(3, 0, 0, 0, 0);
            return;
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            set_fault(1, layout.size(), layout.align(), (*h).size, (*h).align);
        }
        let tag = (*h).tag;
        if (*h).thread == thread_id() {
            LIVE.with(|l| l[tag].set(l[tag].get() - (*h).size as isize));
            BLOCKS.with(|b| b[tag].set(b[tag].get() - 1));
        }
        (*h).magic = MAGIC_DEAD;
        if tag != TAG_HARNESS && QUAR_ON.with(|q| q.get()) {
            // Keep recently released blocks of the library out of reuse so that a second release is seen as such.
            let pos = QUAR_POS.with(|p| {
                let v = p.get();
                p.set((v + 1) % QUARANTINE);
                v
            });
            let old = QUAR.with(|q| q[pos].replace(h as *mut u8));
            if !old.is_null() {
                sys_free(old as *mut Header);
            }
            return;
        }
        sys_free(h);
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        // A grown block keeps the scope of the block it replaces.
        let h = ptr.sub(HDR) as *mut Header;
        let keep = if (*h).magic == MAGIC_LIVE { (*h).tag } else { TAG_HARNESS };
        let old_tag = TAG.with(|t| t.replace(keep));
        let new_ptr = self.alloc(new_layout);
        TAG.with(|t| t.set(old_tag));
        if !new_ptr.is_null() {
            let n = layout.size().min(new_size).min((*h).size);
            std::ptr::copy_nonoverlapping(ptr, new_ptr, n);
            self.dealloc(ptr, layout);
        }
        new_ptr
    }
}

pub struct Scope(usize);

/// Attribute allocations made until the guard is dropped to `tag`.
pub fn scope(tag: usize) -> Scope {
    Scope(TAG.with(|t| t.replace(tag)))
}

impl Drop for Scope {
    fn drop(&mut self) {
        TAG.with(|t| t.set(self.0));
    }
}

pub fn live(tag: usize) -> isize {
    LIVE.with(|l| l[tag].get())
}

pub fn blocks(tag: usize) -> isize {
    BLOCKS.with(|b| b[tag].get())
}

pub fn set_cap(bytes: isize) {
    CAP.with(|c| c.set(bytes));
}

pub fn reset_tag() {
    TAG.with(|t| t.set(TAG_HARNESS));
}

pub fn set_quarantine(on: bool) {
    QUAR_ON.with(|q| q.set(on));
    if !on {
        QUAR.with(|q| {
            for c in q.iter() {
                let p = c.replace(std::ptr::null_mut());
                if !p.is_null() {
                    unsafe { sys_free(p as *mut Header) };
                }
            }
        });
    }
}
