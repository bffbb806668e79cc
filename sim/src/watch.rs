//! Tells a child that is stuck from one that is slow: by the simulator's heartbeat and the CPU
//! time the child has used, never by the wall clock alone.
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// shared page: [0] index of the run or schedule in progress, [1] heartbeat
pub fn page(path: &str) -> &'static [AtomicU64; 2] {
    let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(false).open(path).expect("status file");
    f.set_len(16).expect("status file");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED, "status page");
        &*(p as *const [AtomicU64; 2])
    }
}

pub struct Watch {
    page: &'static [AtomicU64; 2],
    pid: u32,
    beat: u64,
    cpu: f64,
    since: Instant,
}

/// CPU seconds used so far, and whether every thread is asleep
fn cpu(pid: u32) -> (f64, bool) {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| rest.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    let secs = (n(11) + n(12)) / 100.0;
    let mut asleep = true;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in d.flatten() {
            let t = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
            if t.rsplit(')').next().unwrap_or("").split_whitespace().next() != Some("S") {
                asleep = false;
            }
        }
    }
    (secs, asleep)
}

const LIMIT: f64 = 8.0;

impl Watch {
    pub fn new(pid: u32, path: &str, at: u64) -> Watch {
        let page = page(path);
        page[0].store(at, Ordering::SeqCst);
        Watch { page, pid, beat: page[1].load(Ordering::SeqCst), cpu: 0.0, since: Instant::now() }
    }
    pub fn at(&self) -> u64 {
        self.page[0].load(Ordering::SeqCst)
    }
    /// the child was held up from outside
    pub fn reset(&mut self) {
        self.since = Instant::now();
        self.cpu = cpu(self.pid).0;
    }
    pub fn stuck(&mut self) -> bool {
        let b = self.page[1].load(Ordering::SeqCst);
        if b != self.beat {
            self.beat = b;
            self.since = Instant::now();
            self.cpu = -1.0;
            return false;
        }
        if self.since.elapsed() < Duration::from_secs(1) {
            return false;
        }
        let (c, asleep) = cpu(self.pid);
        if self.cpu < 0.0 {
            self.reset();
            return false;
        }
        c - self.cpu > LIMIT || asleep && c - self.cpu < 0.05 && self.since.elapsed().as_secs_f64() > LIMIT
    }
}
