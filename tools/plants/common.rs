#![allow(dead_code,unused)]
use std::panic::{catch_unwind,AssertUnwindSafe};
use std::process::exit;
use std::sync::atomic::{AtomicBool,AtomicUsize,Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration,Instant};
use xecs::*;

use xecs::group::*;
use xecs::query::*;


fn id(n : usize) -> EntityId { EntityId::new(n).unwrap() }
fn check(ok : bool,what : &str) {
    if !ok {
        println!("BROKEN: {}",what);
        exit(1);
    }
}
/// the whole program has to be over in time
fn watchdog(secs : u64,what : &'static str) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        println!("BROKEN: {}",what);
        exit(1);
    });
}
fn quiet<R>(f : impl FnOnce() -> R) -> Result<R,()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_|())
}

