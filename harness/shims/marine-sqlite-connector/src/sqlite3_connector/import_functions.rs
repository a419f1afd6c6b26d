//! Native replacement of the connector's WebAssembly imports: the same
//! functions, implemented on the system's libsqlite3, observed and disturbed
//! by `crate::control`.
#![allow(non_snake_case, clippy::all)]
use crate::control::{self, Verdict};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_double, c_int, c_void};

pub(crate) type Sqlite3DbHandle = u32;
pub(crate) type Sqlite3StmtHandle = u32;

#[derive(Clone, Debug)]
pub struct DBOpenDescriptor {
    pub ret_code: i32,
    pub db_handle: u32,
}
#[derive(Clone, Debug)]
pub struct DBPrepareDescriptor {
    pub ret_code: i32,
    pub stmt_handle: u32,
    pub tail: u32,
}
#[derive(Clone, Debug)]
pub struct DBExecDescriptor {
    pub ret_code: i32,
    pub err_msg: String,
}

mod raw {
    use super::*;
    #[link(name = "sqlite3")]
    extern "C" {
        pub fn sqlite3_open_v2(f: *const c_char, db: *mut *mut c_void, flags: c_int, vfs: *const c_char) -> c_int;
        pub fn sqlite3_close(db: *mut c_void) -> c_int;
        pub fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int, st: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
        pub fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *const c_void, arg: *mut c_void, err: *mut *mut c_char) -> c_int;
        pub fn sqlite3_libversion_number() -> c_int;
        pub fn sqlite3_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_total_changes(db: *mut c_void) -> c_int;
        pub fn sqlite3_busy_timeout(db: *mut c_void, ms: c_int) -> c_int;
        pub fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
        pub fn sqlite3_errcode(db: *mut c_void) -> c_int;
        pub fn sqlite3_column_type(st: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_name(st: *mut c_void, i: c_int) -> *const c_char;
        pub fn sqlite3_step(st: *mut c_void) -> c_int;
        pub fn sqlite3_reset(st: *mut c_void) -> c_int;
        pub fn sqlite3_bind_blob(st: *mut c_void, p: c_int, b: *const c_void, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_bind_double(st: *mut c_void, p: c_int, v: c_double) -> c_int;
        pub fn sqlite3_bind_int64(st: *mut c_void, p: c_int, v: i64) -> c_int;
        pub fn sqlite3_bind_null(st: *mut c_void, p: c_int) -> c_int;
        pub fn sqlite3_bind_text(st: *mut c_void, p: c_int, b: *const c_char, n: c_int, d: isize) -> c_int;
        pub fn sqlite3_column_count(st: *mut c_void) -> c_int;
        pub fn sqlite3_column_blob(st: *mut c_void, i: c_int) -> *const c_void;
        pub fn sqlite3_column_bytes(st: *mut c_void, i: c_int) -> c_int;
        pub fn sqlite3_column_double(st: *mut c_void, i: c_int) -> c_double;
        pub fn sqlite3_column_int64(st: *mut c_void, i: c_int) -> i64;
        pub fn sqlite3_column_text(st: *mut c_void, i: c_int) -> *const c_char;
        pub fn sqlite3_finalize(st: *mut c_void) -> c_int;
        pub fn sqlite3_soft_heap_limit64(n: i64) -> i64;
        pub fn sqlite3_hard_heap_limit64(n: i64) -> i64;
    }
}

#[derive(Default)]
struct Handles {
    next: u32,
    map: HashMap<u32, usize>,
}
thread_local!(static HANDLES: RefCell<Handles> = RefCell::new(Handles::default()));

fn put(p: *mut c_void) -> u32 {
    HANDLES.with(|h| {
        let mut h = h.borrow_mut();
        h.next += 1;
        let n = h.next;
        h.map.insert(n, p as usize);
        n
    })
}
fn get(h: u32) -> *mut c_void {
    HANDLES
        .try_with(|t| t.borrow().map.get(&h).copied().unwrap_or(0))
        .unwrap_or(0) as *mut c_void
}
fn take(h: u32) -> *mut c_void {
    HANDLES
        .try_with(|t| t.borrow_mut().map.remove(&h).unwrap_or(0))
        .unwrap_or(0) as *mut c_void
}

/// run `f` under the fault plan; `f` yields a return code
fn observed(label: &str, detail: &str, f: impl FnOnce() -> i32) -> i32 {
    match control::before(label, detail) {
        Verdict::Pass => f(),
        Verdict::Fail(code) => code,
        Verdict::RunThenFail(code) => {
            f();
            code
        }
        Verdict::RunThenCrash => {
            f();
            control::die()
        }
    }
}

pub unsafe fn sqlite3_open_v2(filename: &str, flags: i32, _vfs: &str) -> DBOpenDescriptor {
    crate::sys::install();
    let path = control::map_path(filename);
    let c = CString::new(path).unwrap();
    let mut db: *mut c_void = std::ptr::null_mut();
    let ret_code = observed("open", filename, || {
        raw::sqlite3_open_v2(c.as_ptr(), &mut db, flags, std::ptr::null())
    });
    DBOpenDescriptor { ret_code, db_handle: put(db) }
}
pub unsafe fn sqlite3_close(db_handle: u32) -> i32 {
    let p = take(db_handle);
    if p.is_null() {
        return 0;
    }
    raw::sqlite3_close(p)
}
pub unsafe fn sqlite3_prepare_v2(db_handle: u32, sql: &str) -> DBPrepareDescriptor {
    let c = CString::new(sql).unwrap_or_default();
    let mut st: *mut c_void = std::ptr::null_mut();
    let ret_code = observed("prepare", sql, || {
        raw::sqlite3_prepare_v2(get(db_handle), c.as_ptr(), -1, &mut st, std::ptr::null_mut())
    });
    DBPrepareDescriptor { ret_code, stmt_handle: put(st), tail: 0 }
}
pub unsafe fn sqlite3_exec(db_handle: u32, sql: &str, _cb: i32, _arg: i32) -> DBExecDescriptor {
    let c = CString::new(sql).unwrap_or_default();
    let ret_code = observed("exec", sql, || {
        raw::sqlite3_exec(get(db_handle), c.as_ptr(), std::ptr::null(), std::ptr::null_mut(), std::ptr::null_mut())
    });
    DBExecDescriptor { ret_code, err_msg: String::new() }
}
pub unsafe fn sqlite3_libversion_number() -> i32 {
    raw::sqlite3_libversion_number()
}
pub unsafe fn sqlite3_changes(db: u32) -> i32 {
    raw::sqlite3_changes(get(db))
}
pub unsafe fn sqlite3_total_changes(db: u32) -> i32 {
    raw::sqlite3_total_changes(get(db))
}
pub unsafe fn sqlite3_busy_timeout(db: u32, ms: u32) -> i32 {
    raw::sqlite3_busy_timeout(get(db), ms as c_int)
}
unsafe fn owned(p: *const c_char) -> String {
    if p.is_null() {
        String::new()
    } else {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    }
}
pub unsafe fn sqlite3_errmsg(db: u32) -> String {
    owned(raw::sqlite3_errmsg(get(db)))
}
pub unsafe fn sqlite3_errcode(db: u32) -> i32 {
    // a row or "done" is not an error; the wasm connector sees the same codes
    match raw::sqlite3_errcode(get(db)) {
        100 | 101 => 0,
        c => c,
    }
}
pub unsafe fn sqlite3_column_type(st: u32, icol: u32) -> i32 {
    raw::sqlite3_column_type(get(st), icol as c_int)
}
pub unsafe fn sqlite3_column_name(st: u32, n: u32) -> String {
    owned(raw::sqlite3_column_name(get(st), n as c_int))
}
pub unsafe fn sqlite3_step(st: u32) -> i32 {
    observed("step", "", || raw::sqlite3_step(get(st)))
}
pub unsafe fn sqlite3_reset(st: u32) -> i32 {
    observed("reset", "", || raw::sqlite3_reset(get(st)))
}
pub unsafe fn sqlite3_bind_blob(st: u32, pos: i32, blob: &Vec<u8>, _x: i32) -> i32 {
    observed("bind", "blob", || {
        raw::sqlite3_bind_blob(get(st), pos, blob.as_ptr() as *const c_void, blob.len() as c_int, -1)
    })
}
pub unsafe fn sqlite3_bind_double(st: u32, pos: i32, value: f64) -> i32 {
    observed("bind", "double", || raw::sqlite3_bind_double(get(st), pos, value))
}
pub unsafe fn sqlite3_bind_int64(st: u32, pos: i32, value: i64) -> i32 {
    observed("bind", "int", || raw::sqlite3_bind_int64(get(st), pos, value))
}
pub unsafe fn sqlite3_bind_null(st: u32, pos: i32) -> i32 {
    observed("bind", "null", || raw::sqlite3_bind_null(get(st), pos))
}
pub unsafe fn sqlite3_bind_text(st: u32, pos: i32, text: &str, _x: i32) -> i32 {
    observed("bind", "text", || {
        raw::sqlite3_bind_text(get(st), pos, text.as_ptr() as *const c_char, text.len() as c_int, -1)
    })
}
pub unsafe fn sqlite3_column_count(st: u32) -> i32 {
    raw::sqlite3_column_count(get(st))
}
pub unsafe fn sqlite3_column_blob(st: u32, icol: i32) -> Vec<u8> {
    let p = raw::sqlite3_column_blob(get(st), icol) as *const u8;
    let n = raw::sqlite3_column_bytes(get(st), icol) as usize;
    if p.is_null() {
        Vec::new()
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}
pub unsafe fn sqlite3_column_double(st: u32, icol: i32) -> f64 {
    raw::sqlite3_column_double(get(st), icol)
}
pub unsafe fn sqlite3_column_int64(st: u32, icol: u32) -> i64 {
    raw::sqlite3_column_int64(get(st), icol as c_int)
}
pub unsafe fn sqlite3_column_text(st: u32, icol: u32) -> String {
    owned(raw::sqlite3_column_text(get(st), icol as c_int))
}
pub unsafe fn sqlite3_column_bytes(st: u32, icol: u32) -> i32 {
    raw::sqlite3_column_bytes(get(st), icol as c_int)
}
pub unsafe fn sqlite3_finalize(st: u32) -> i32 {
    let p = take(st);
    if p.is_null() {
        return 0;
    }
    raw::sqlite3_finalize(p)
}
pub unsafe fn sqlite3_soft_heap_limit64(size: i64) -> i64 {
    raw::sqlite3_soft_heap_limit64(size)
}
pub unsafe fn sqlite3_hard_heap_limit64(size: i64) -> i64 {
    raw::sqlite3_hard_heap_limit64(size)
}
