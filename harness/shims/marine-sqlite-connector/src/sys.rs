//! SQLite's own hook for replacing its system calls: every call that changes a
//! file is counted, and the process can be made to die at any of them.
use crate::control;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::Once;

#[repr(C)]
struct Vfs {
    version: c_int,
    os_file: c_int,
    max_path: c_int,
    next: *mut c_void,
    name: *const c_char,
    app: *mut c_void,
    // xOpen .. xGetLastError, xCurrentTimeInt64
    methods: [*mut c_void; 13],
    set: Option<unsafe extern "C" fn(*mut Vfs, *const c_char, *mut c_void) -> c_int>,
}

extern "C" {
    fn sqlite3_initialize() -> c_int;
    fn sqlite3_vfs_find(name: *const c_char) -> *mut Vfs;
    fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn ftruncate(fd: c_int, n: i64) -> c_int;
    fn unlink(p: *const c_char) -> c_int;
}

unsafe extern "C" fn my_pwrite(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    if control::system_call() {
        pwrite64(fd, b, n / 2, off);
        control::die();
    }
    pwrite64(fd, b, n, off)
}
unsafe extern "C" fn my_write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if control::system_call() {
        write(fd, b, n / 2);
        control::die();
    }
    write(fd, b, n)
}
unsafe extern "C" fn my_ftruncate(fd: c_int, n: i64) -> c_int {
    if control::system_call() {
        control::die();
    }
    ftruncate(fd, n)
}
unsafe extern "C" fn my_unlink(p: *const c_char) -> c_int {
    if control::system_call() {
        control::die();
    }
    unlink(p)
}

static ONCE: Once = Once::new();

pub(crate) fn install() {
    ONCE.call_once(|| unsafe {
        sqlite3_initialize();
        let v = sqlite3_vfs_find(std::ptr::null());
        if v.is_null() || (*v).version < 3 {
            return;
        }
        let set = match (*v).set {
            Some(s) => s,
            None => return,
        };
        for (name, f) in [
            ("pwrite\0", my_pwrite as *mut c_void),
            ("pwrite64\0", my_pwrite as *mut c_void),
            ("write\0", my_write as *mut c_void),
            ("ftruncate\0", my_ftruncate as *mut c_void),
            ("unlink\0", my_unlink as *mut c_void),
        ] {
            set(v, name.as_ptr() as *const c_char, f);
        }
    })
}
