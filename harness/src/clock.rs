//! A settable wall clock. clock_gettime defined here takes precedence over the C library's, so the
//! engine's Utc::now() reads the thread's fake time when one is set. Other clocks are untouched.
use std::cell::Cell;

thread_local! {
    static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static READS: Cell<u64> = const { Cell::new(0) };
    /// nanoseconds the fake clock advances at every read
    static STEP: Cell<i64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let fake = FAKE.try_with(|f| f.get()).unwrap_or(None);
        if let Some((s, n)) = fake {
            READS.with(|r| r.set(r.get() + 1));
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n as _;
            let step = STEP.with(|x| x.get());
            if step != 0 {
                let t = n + step;
                FAKE.with(|f| f.set(Some((s + t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000)))));
            }
            return 0;
        }
    }
    let r = libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts);
    if r == 0 { 0 } else { -1 }
}

/// Runs f with the wall clock of this thread standing still at secs+nanos since the epoch.
pub fn at<T>(secs: i64, nanos: u32, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FAKE.with(|x| x.set(None));
        }
    }
    let _r = Reset;
    FAKE.with(|x| x.set(Some((secs, nanos as i64))));
    READS.with(|r| r.set(0));
    f()
}

pub fn reads() -> u64 {
    READS.with(|r| r.get())
}

/// The fake clock must be in effect, otherwise the time properties would test nothing.
pub fn self_check() -> Result<(), String> {
    let t = at(1_234_567_890, 123_000_000, chrono::Utc::now);
    if t.timestamp() == 1_234_567_890 && t.timestamp_subsec_millis() == 123 {
        Ok(())
    } else {
        Err(format!("fake clock not in effect: {}", t))
    }
}
