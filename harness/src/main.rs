mod cli;
mod engine;
mod sup;
mod pdf;
mod api;
mod font;
mod dom;
mod refl;
mod layout;
mod css;
mod sel;
mod cascade;
mod fontchk;
mod plain;
mod sink;


/// Counts the bytes each thread has allocated, and the most it had at a time since the last reset.
struct Counting;
thread_local! { static CUR: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; static PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
fn note(n: isize) { let _ = CUR.try_with(|c| { let v = c.get() + n; c.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size() as isize); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size() as isize); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { note(-(l.size() as isize)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n as isize - l.size() as isize); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn alloc_reset() { CUR.with(|c| c.set(0)); PEAK.with(|p| p.set(0)); }
pub fn alloc_peak() -> usize { PEAK.with(|p| p.get()).max(0) as usize }

const CHECKS: &[sup::Check] = &[
    ("C01", "model_checking", api::c01),
    ("C02", "model_checking", api::c02),
    ("C03", "model_checking", api::c03),
    ("C04", "model_checking", fontchk::c04),
    ("C05", "model_checking", fontchk::c05),
    ("C06", "fault_enumeration", fontchk::c06),
    ("C07", "model_checking", fontchk::c07),
    ("C08", "model_checking", plain::c08),
    ("C09", "model_checking", dom::c09),
    ("C10", "model_checking", dom::c10),
    ("C11", "model_checking", cascade::c11),
    ("C12", "model_checking", css::c12),
    ("C13", "model_checking", sel::c13),
    ("C14", "model_checking", sel::c14),
    ("C15", "model_checking", css::c15),
    ("C16", "model_checking", cascade::c16),
    ("C17", "model_checking", layout::c17),
    ("C18", "model_checking", layout::c18),
    ("C19", "model_checking", layout::c19),
    ("C20", "model_checking", layout::c20),
    ("C23", "fault_enumeration", sink::c23),
    ("C27", "fault_enumeration", cli::c27),
];

fn main() { sup::main(CHECKS) }
