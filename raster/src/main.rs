#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../harness/src/sup.rs"]
mod sup;
#[path = "../../harness/src/font.rs"]
#[allow(dead_code)]
mod font;
mod text;
mod png;
mod pages;
mod pixels;

fn main() { sup::main(&[("C22", "model_checking", text::c22), ("C24", "fault_enumeration", png::c24), ("C25", "model_checking", pages::c25), ("C26", "model_checking", pixels::c26)]) }
