mod codec; mod exec; mod js; mod node; mod nodeser; mod shape; mod sinks; mod types;
#[cfg(not(target_arch = "wasm32"))]
use std::io::{BufRead, Write};

#[cfg(target_arch = "wasm32")]
fn main() {}
/// the 32-bit build: a module that is handed one stimulus at a time by mbt/wasm.js (a panic is a trap there)
#[cfg(target_arch = "wasm32")]
mod wasm {
    #[unsafe(no_mangle)]
    pub extern "C" fn room(n: usize) -> *mut u8 { let mut v = Vec::<u8>::with_capacity(n); let p = v.as_mut_ptr(); std::mem::forget(v); p }
    /// the answer: its length and its bytes
    #[unsafe(no_mangle)]
    pub extern "C" fn step(p: *mut u8, n: usize, tab: i32) -> *const u8 {
        let line = unsafe { Vec::from_raw_parts(p, n, n) };
        let o = super::answer(&line, tab != 0);
        let mut b = (o.len() as u32).to_le_bytes().to_vec(); b.extend_from_slice(o.as_bytes());
        Box::leak(b.into_boxed_slice()).as_ptr()
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn done(p: *mut u8, n: usize) { drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n + 4)) }) }
}
#[cfg(not(target_arch = "wasm32"))]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap();
    h.join().unwrap();
}
#[cfg(not(target_arch = "wasm32"))]
fn run() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let tab = std::env::args().any(|a| a == "--tables");
    for line in stdin.lock().lines() {
        out.write_all(answer(line.unwrap().as_bytes(), tab).as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
/// one stimulus per line in, one result per line out: {"r": result | null when not applicable | {"x": "PANIC"}, "ft": .., "fs": ..}
fn answer(line: &[u8], tab: bool) -> String {
    let st = js::parse(line);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::exec(&st)))
        .unwrap_or_else(|_| js::obj(vec![("x", js::s("PANIC"))]));
    let mut o = String::from("{\"r\":");
    js::write(&r, &mut o);
    if tab {
        let (ft, fs) = exec::tables(&st, &r);
        o.push_str(",\"ft\":"); js::write(&ft, &mut o);
        o.push_str(",\"fs\":"); js::write(&fs, &mut o);
    }
    o.push_str("}\n");
    o
}
