//! Control over every SQLite connection opsqueue opens in this process, through SQLite's own
//! extension points: what is durable before each commit, commits made to fail, and a callback at
//! every statement, row and statement end, where another operation can be run.
use crate::snap::{Raw, Snap};
use libsqlite3_sys as ffi;
use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

thread_local! { static OFF: Cell<bool> = const { Cell::new(false) }; }

/// Runs `f` without instrumenting the connections it opens.
pub fn without<T>(f: impl FnOnce() -> T) -> T {
    let old = OFF.with(|o| o.replace(true));
    let r = f();
    OFF.with(|o| o.set(old));
    r
}

/// Called at an event of a connection: (event number, what).
pub type EventFn = Box<dyn FnMut(u64, Event) + Send>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Event {
    Stmt,
    Row,
    End,
}

static RECORD: AtomicBool = AtomicBool::new(false);
static EVENTS: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
/// Number of commits to let through before one fails; negative: never fail.
static FAIL_IN: AtomicI64 = AtomicI64::new(-1);
static CONNS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
/// Number of statements to let through before one is interrupted; negative: none.
static INTERRUPT_IN: AtomicI64 = AtomicI64::new(-1);
static FAILED: AtomicU64 = AtomicU64::new(0);
/// Transactions that ended (committed or rolled back), ever.
pub static TX_ENDS: AtomicU64 = AtomicU64::new(0);
static READER: Mutex<Option<Raw>> = Mutex::new(None);
static MID: Mutex<Vec<Snap>> = Mutex::new(Vec::new());
static ON_EVENT: Mutex<Option<EventFn>> = Mutex::new(None);

/// Installs the hooks on every connection opened from now on. Call before opening the database.
pub fn install() {
    unsafe {
        ffi::sqlite3_auto_extension(Some(entry));
    }
}

unsafe extern "C" fn entry(db: *mut ffi::sqlite3, _e: *mut *mut c_char, _a: *const ffi::sqlite3_api_routines) -> c_int {
    if OFF.with(Cell::get) {
        return 0;
    }
    CONNS.lock().unwrap().push(db as usize);
    unsafe {
        ffi::sqlite3_commit_hook(db, Some(on_commit), db.cast());
        ffi::sqlite3_rollback_hook(db, Some(on_rollback), db.cast());
        ffi::sqlite3_trace_v2(
            db,
            (ffi::SQLITE_TRACE_STMT | ffi::SQLITE_TRACE_ROW | ffi::SQLITE_TRACE_PROFILE) as c_uint,
            Some(on_trace),
            db.cast(),
        );
    }
    0
}

unsafe extern "C" fn on_commit(_db: *mut c_void) -> c_int {
    if RECORD.load(SeqCst) {
        // The state that is durable before this commit.
        if let Some(raw) = READER.lock().unwrap().as_ref() {
            MID.lock().unwrap().push(Snap::take(raw));
        }
    }
    let left = FAIL_IN.load(SeqCst);
    if left >= 0 {
        FAIL_IN.store(left - 1, SeqCst);
        if left == 0 {
            FAILED.fetch_add(1, SeqCst);
            return 1;
        }
    }
    TX_ENDS.fetch_add(1, SeqCst);
    0
}

unsafe extern "C" fn on_rollback(_db: *mut c_void) {
    TX_ENDS.fetch_add(1, SeqCst);
}

unsafe extern "C" fn on_trace(what: c_uint, ctx: *mut c_void, _p: *mut c_void, _x: *mut c_void) -> c_int {
    if what as i32 == ffi::SQLITE_TRACE_STMT as i32 {
        let left = INTERRUPT_IN.load(SeqCst);
        if left >= 0 {
            INTERRUPT_IN.store(left - 1, SeqCst);
            if left == 0 {
                FAILED.fetch_add(1, SeqCst);
                unsafe { ffi::sqlite3_interrupt(ctx.cast()) };
            }
        }
    }
    if !EVENTS.load(SeqCst) {
        return 0;
    }
    let e = match what as i32 {
        x if x == ffi::SQLITE_TRACE_STMT as i32 => Event::Stmt,
        x if x == ffi::SQLITE_TRACE_ROW as i32 => Event::Row,
        _ => Event::End,
    };
    // Only one callback at a time; events of the operation run inside the callback do not count.
    let Ok(mut g) = ON_EVENT.try_lock() else { return 0 };
    if let Some(f) = g.as_mut() {
        let n = COUNT.fetch_add(1, SeqCst);
        f(n, e);
    }
    0
}

/// From now on, `f` is called at every event; `None` stops it. Returns the number of events seen.
pub fn on_events(f: Option<EventFn>) -> u64 {
    EVENTS.store(false, SeqCst);
    let on = f.is_some();
    *ON_EVENT.lock().unwrap() = f;
    let n = COUNT.swap(0, SeqCst);
    EVENTS.store(on, SeqCst);
    n
}

/// Starts recording the durable states before each commit.
pub fn record(file: Option<&str>) {
    *READER.lock().unwrap() = file.map(Raw::open);
    RECORD.store(file.is_some(), SeqCst);
}
#[must_use]
pub fn take_mid() -> Vec<Snap> {
    std::mem::take(&mut *MID.lock().unwrap())
}
/// The commit after `n` more ones fails (negative: none does).
pub fn fail_commit_in(n: i64) {
    FAIL_IN.store(n, SeqCst);
}
#[must_use]
pub fn failed_commits() -> u64 {
    FAILED.swap(0, SeqCst)
}
/// The statement after `n` more ones fails (negative: none does).
pub fn interrupt_in(n: i64) {
    INTERRUPT_IN.store(n, SeqCst);
}
/// Makes the disk full (no more than `extra` pages beyond what is used now) or roomy again. The
/// connections must be open and idle; those that were opened first are the writers.
pub fn disk_full(extra: Option<i64>) {
    let dbs = CONNS.lock().unwrap().clone();
    for db in dbs {
        let db = db as *mut ffi::sqlite3;
        let n = extra.map_or(1_000_000, |x| page_count(db) + x);
        let sql = std::ffi::CString::new(format!("PRAGMA max_page_count = {n}")).unwrap();
        unsafe { ffi::sqlite3_exec(db, sql.as_ptr(), None, std::ptr::null_mut(), std::ptr::null_mut()) };
    }
}
fn page_count(db: *mut ffi::sqlite3) -> i64 {
    unsafe {
        let mut stmt = std::ptr::null_mut();
        let sql = std::ffi::CString::new("PRAGMA page_count").unwrap();
        ffi::sqlite3_prepare_v2(db, sql.as_ptr(), -1, &raw mut stmt, std::ptr::null_mut());
        ffi::sqlite3_step(stmt);
        let n = ffi::sqlite3_column_int64(stmt, 0);
        ffi::sqlite3_finalize(stmt);
        n
    }
}
/// Forget the connections seen so far.
pub fn forget() {
    CONNS.lock().unwrap().clear();
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: c_int, r: *const RLimit) -> c_int;
    fn signal(sig: c_int, handler: usize) -> usize;
}
/// Files of this process cannot grow beyond `n` bytes (`None`: no limit): writes fail as on a full disk.
pub fn file_limit(n: Option<u64>) {
    const RLIMIT_FSIZE: c_int = 1;
    const SIGXFSZ: c_int = 25;
    let r = RLimit { cur: n.unwrap_or(u64::MAX), max: u64::MAX };
    unsafe {
        signal(SIGXFSZ, 1);
        setrlimit(RLIMIT_FSIZE, &raw const r);
    }
}

/// Replaces what a server told this connection about itself: nothing at all, or nothing reserved and in flight.
pub async fn lookups(conn: &mut sqlx::SqliteConnection, none: bool) {
    unsafe extern "C" fn null(ctx: *mut ffi::sqlite3_context, _n: i32, _a: *mut *mut ffi::sqlite3_value) {
        unsafe { ffi::sqlite3_result_null(ctx) }
    }
    unsafe extern "C" fn zero(ctx: *mut ffi::sqlite3_context, _n: i32, _a: *mut *mut ffi::sqlite3_value) {
        unsafe { ffi::sqlite3_result_int(ctx, 0) }
    }
    unsafe extern "C" fn empty(ctx: *mut ffi::sqlite3_context, _n: i32, _a: *mut *mut ffi::sqlite3_value) {
        unsafe { ffi::sqlite3_result_text(ctx, c"{}".as_ptr(), 2, ffi::SQLITE_STATIC()) }
    }
    type F = unsafe extern "C" fn(*mut ffi::sqlite3_context, i32, *mut *mut ffi::sqlite3_value);
    let Ok(mut h) = conn.lock_handle().await else { return };
    let fs: [(&std::ffi::CStr, i32, F); 2] = [
        (c"opsqueue_is_reserved", 2, if none { null } else { zero }),
        (c"opsqueue_metadata_counts", 1, if none { null } else { empty }),
    ];
    for (name, n, f) in fs {
        unsafe {
            ffi::sqlite3_create_function_v2(h.as_raw_handle().as_ptr(), name.as_ptr(), n, ffi::SQLITE_UTF8, std::ptr::null_mut(), Some(f), None, None, None);
        }
    }
}
