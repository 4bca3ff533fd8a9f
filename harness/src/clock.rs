//! A wall clock that can be shifted for the current thread: the program's own `clock_gettime`, found before the
//! C library's. Only CLOCK_REALTIME is affected.

use std::cell::Cell;

thread_local! {
    static SHIFT: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut Timespec) -> i32 {
    let r = syscall(228, clock as i64, t);
    if r == 0 && clock == 0 {
        (*t).sec += SHIFT.with(|s| s.get());
    }
    r as i32
}

pub struct Shift(i64);

impl Shift {
    pub fn new(by: i64) -> Shift {
        Shift(SHIFT.with(|s| s.replace(by)))
    }
}

impl Drop for Shift {
    fn drop(&mut self) {
        SHIFT.with(|s| s.set(self.0));
    }
}

#[cfg(test)]
mod tests {
    use std::time::SystemTime;
    #[test]
    fn shifts() {
        let a = SystemTime::now();
        let b = {
            let _s = super::Shift::new(5000);
            SystemTime::now()
        };
        let c = SystemTime::now();
        assert!(b.duration_since(a).unwrap().as_secs() >= 5000);
        assert!(c.duration_since(a).unwrap().as_secs() < 100);
    }
}
