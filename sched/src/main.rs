#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../harness/src/sup.rs"]
mod sup;
mod c21;

/// Every allocation is a scheduling point.
struct Points;
unsafe impl std::alloc::GlobalAlloc for Points {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { rayon_core::model::allocation_point(); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { rayon_core::model::allocation_point(); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { rayon_core::model::allocation_point(); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Points = Points;

fn main() {
    // (a process of its own for the check, which compares its output)
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--render" {
        use std::io::Write;
        std::io::stdout().write_all(&victor::dom::Document::parse_html(a[2].as_bytes()).to_pdf_bytes()).unwrap();
        return
    }
    sup::main(&[("C21", "model_checking", c21::c21)])
}
