//! C20: the statistics, under every interleaving.
use bip324_traffic::{AtomicTrafficStats, TrafficStats};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

nd::harnesses!(c20_stats, c20_stats_three, c20_counts, c20_clock, c20_activity);

const R: [usize; 4] = [3, 500, 11, 1];
const W: [usize; 4] = [5, 70, 9000, 2];
fn counted(threads: usize, each: usize) {
    let s = Arc::new(AtomicTrafficStats::new());
    nd::check(s.write_read_ratio().is_none(), "no ratio before anything is read");
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let s = s.clone();
            thread::spawn(move || {
                for i in 0..each {
                    s.record_read(R[(t + 2 * i) % 4]);
                    s.record_write(W[(t + 2 * i) % 4]);
                }
            })
        })
        .collect();
    s.record_read(100);
    for h in hs {
        nd::check(h.join().is_ok(), "recording ends");
    }
    let (mut r, mut w) = (100usize, 0usize);
    for t in 0..threads {
        for i in 0..each {
            r += R[(t + 2 * i) % 4];
            w += W[(t + 2 * i) % 4];
        }
    }
    nd::check(s.write_read_ratio() == Some(w as f64 / r as f64), "the statistics are the sums of what was recorded");
    nd::cover(true, "counted");
}
pub fn c20_stats() {
    counted(1, 2)
}
pub fn c20_stats_three() {
    counted(2, 1)
}
// Any amounts.
pub fn c20_counts() {
    const SIZES: [usize; 14] = [0, 1, 2, 3, 100, 255, 256, 1025, 65_535, 65_536, 4_000_014, 0xff_ffff, 0xffff_ffff, 1 << 32];
    let s = AtomicTrafficStats::new();
    let (r, w, n) = (SIZES[nd::pick(0, 13)], SIZES[nd::pick(0, 13)], nd::pick(0, 2));
    let mut total = 0;
    for _ in 0..n {
        s.record_write(w);
        s.record_read(r);
        total += w;
    }
    match nd::pick(0, 2) {
        0 => {
            s.record_write(7);
            total += 7;
        }
        1 => s.record_write(0),
        _ => {}
    }
    let want = if n * r == 0 { None } else { Some(total as f64 / (n * r) as f64) };
    nd::check(s.write_read_ratio() == want, "the statistics are the sums of what was recorded");
    nd::cover(true, "counted");
}
pub fn c20_activity() {
    let s = AtomicTrafficStats::new();
    let ms = |k: u64| Duration::from_millis(k);
    nd::check(s.time_since_last_activity() < ms(50), "creation counts as activity");
    thread::sleep(ms(400));
    nd::check(s.time_since_last_activity() >= ms(400), "time passes");
    match nd::pick(0, 1) {
        0 => s.record_read(nd::u8() as usize),
        _ => s.record_write(nd::u8() as usize),
    }
    nd::check(s.time_since_last_activity() < ms(50), "reading and writing are activity");
    thread::sleep(ms(300));
    let t = s.time_since_last_activity();
    nd::check(t >= ms(300) && t < ms(390), "time since the last activity");
    nd::cover(true, "measured");
}
// Asked while something is recorded.
pub fn c20_clock() {
    let s = Arc::new(AtomicTrafficStats::new());
    let t = s.clone();
    let h = thread::spawn(move || {
        thread::sleep(Duration::from_millis(5));
        t.record_read(1);
        thread::sleep(Duration::from_millis(5));
        t.record_write(1);
    });
    for _ in 0..2 {
        nd::check(s.time_since_last_activity() < Duration::from_millis(50), "time since the last activity");
        thread::sleep(Duration::from_millis(7));
    }
    nd::check(h.join().is_ok(), "recording ends");
    nd::cover(true, "measured");
}
