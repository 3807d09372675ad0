"""mkseed.mk(id, property, [(file, old, new)...], demo, needs=, breaks=, features=, deps=): writes /verif/seeded/<id> from /repo's HEAD."""
import json, os, subprocess

ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering::SeqCst};
// checks that every block goes back with the layout it was obtained with, and counts live blocks
pub struct A;
const N: usize = 1 << 16;
static PTR: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static LAY: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static BAD: AtomicUsize = AtomicUsize::new(0);
pub static NALLOC: AtomicUsize = AtomicUsize::new(0);
pub static FAIL_REALLOC: AtomicBool = AtomicBool::new(false);
fn key(l: Layout) -> usize { (l.size() << 12) | l.align() }
fn put(p: *mut u8, l: Layout) {
    LIVE.fetch_add(1, SeqCst);
    NALLOC.fetch_add(1, SeqCst);
    let mut i = (p as usize >> 4) % N;
    while PTR[i].compare_exchange(0, p as usize, SeqCst, SeqCst).is_err() && PTR[i].compare_exchange(1, p as usize, SeqCst, SeqCst).is_err() { i = (i + 1) % N; }
    LAY[i].store(key(l), SeqCst);
}
fn take(p: *mut u8, l: Layout) -> bool {
    let mut i = (p as usize >> 4) % N;
    let mut n = 0;
    while PTR[i].load(SeqCst) != p as usize { if PTR[i].load(SeqCst) == 0 || n == N { BAD.fetch_add(1, SeqCst); return false; } i = (i + 1) % N; n += 1; }
    if LAY[i].load(SeqCst) != key(l) { BAD.fetch_add(1, SeqCst); }
    PTR[i].store(1, SeqCst);
    LIVE.fetch_sub(1, SeqCst);
    true
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); put(p, l); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // a block that is not live, or not this size, is kept so that the process survives to report it
        let b = BAD.load(SeqCst);
        if take(p, l) && BAD.load(SeqCst) == b { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if FAIL_REALLOC.load(SeqCst) { return std::ptr::null_mut(); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
#[global_allocator]
static GA: A = A;
#[allow(dead_code)]
pub fn live() -> usize { LIVE.load(SeqCst) }
#[allow(dead_code)]
pub fn bad() -> usize { BAD.load(SeqCst) }
'''
LIB = open("/verif/tools/demo_lib.txt").read()


def mk(id, prop, edits, demo, needs, breaks, features=("alloc", "queue"), deps=(), alloc=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        p = "/repo/" + f
        s = files.get(p) or open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[p] = s.replace(old, new)
    keep = {p: open(p).read() for p in files}
    try:
        for p, s in files.items():
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in keep.items():
            open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write((ALLOC if alloc else "") + demo)
    open(d + "/demo.sh", "w").write(LIB.replace("@FEATURES@", ", ".join('"%s"' % x for x in features)).replace("@DEPS@", "\n".join(deps)))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"))
    print("made", id)
