//! A SQLite VFS whose files live in memory ("disks"): it records every operation that can reach the
//! medium (for crash exploration), and fails chosen operations (for fault injection).
//! A file is opened as "file:/mcvfs/<disk>/<name>?vfs=mcvfs".
use libsqlite3_sys as ffi;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Once};

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Create,
    Write(u64, Arc<Vec<u8>>),
    Truncate(u64),
    Sync,
    /// Whether the directory was synced.
    Delete(bool),
    /// A point in the life of the program using the store.
    Mark(usize),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub file: String,
    pub act: Act,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Open,
    Read,
    Write,
    Truncate,
    Sync,
    Size,
    Lock,
    ShmMap,
    ShmLock,
    Delete,
    Access,
}

pub const KINDS: &[Kind] = &[Kind::Open, Kind::Read, Kind::Write, Kind::Truncate, Kind::Sync, Kind::Size, Kind::Lock, Kind::ShmMap, Kind::ShmLock, Kind::Delete, Kind::Access];

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// The first call (counted over all kinds, from 0) that fails.
    pub at: u64,
    /// How many calls fail from there on.
    pub len: u64,
    /// A full disk rather than an error of the medium.
    pub full: bool,
}

#[derive(Default)]
struct Shm {
    regions: Vec<Vec<u64>>,
    shared: [u32; 8],
    excl: [bool; 8],
}

#[derive(Default)]
struct File {
    data: Vec<u8>,
    shared: u32,
    reserved: bool,
    pending: bool,
    exclusive: bool,
    shm: Shm,
}

#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, File>,
    pub trace: Vec<Op>,
    pub tracing: bool,
    pub calls: u64,
    pub kinds: Vec<Kind>,
    pub fault: Option<Fault>,
    pub fired: Vec<Kind>,
}

pub type Image = BTreeMap<String, Vec<u8>>;

pub struct DiskRef {
    id: u64,
    pub disk: Arc<Mutex<Disk>>,
}

static NEXT: AtomicU64 = AtomicU64::new(1);
static INIT: Once = Once::new();

// ---------------------------------------------------------------- two threads, one at a time

/// Who runs, of two threads. A thread hands over at the given calls (counted over both), and
/// whenever it has to wait for a lock.
pub struct Turns {
    state: Mutex<TurnState>,
    cv: std::sync::Condvar,
}
struct TurnState {
    turn: usize,
    done: [bool; 2],
    calls: u64,
    switch_at: Vec<u64>,
    /// Hand-overs that took place because of `switch_at`.
    taken: u64,
}

thread_local! {
    static ME: std::cell::RefCell<Option<(Arc<Turns>, usize)>> = std::cell::RefCell::new(None);
}

impl Turns {
    pub fn new(switch_at: Vec<u64>) -> Arc<Turns> {
        Arc::new(Turns { state: Mutex::new(TurnState { turn: 0, done: [false; 2], calls: 0, switch_at, taken: 0 }), cv: std::sync::Condvar::new() })
    }
    /// Runs as thread `me`, when it is its turn.
    pub fn run<T>(self: &Arc<Turns>, me: usize, f: impl FnOnce() -> T) -> T {
        ME.with(|m| *m.borrow_mut() = Some((self.clone(), me)));
        self.wait(me, self.state.lock().unwrap());
        let r = f();
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        s.turn = 1 - me;
        self.cv.notify_all();
        drop(s);
        ME.with(|m| *m.borrow_mut() = None);
        r
    }
    /// Calls made, and hand-overs as asked for.
    pub fn calls(&self) -> (u64, u64) {
        let s = self.state.lock().unwrap();
        (s.calls, s.taken)
    }
    fn wait(&self, me: usize, mut s: std::sync::MutexGuard<TurnState>) {
        while s.turn != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn over(&self, me: usize, mut s: std::sync::MutexGuard<TurnState>) {
        if !s.done[1 - me] {
            s.turn = 1 - me;
            self.cv.notify_all();
            self.wait(me, s);
        }
    }
}

fn me() -> Option<(Arc<Turns>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().and_then(|m| m)
}

/// A call that the other thread could notice is about to be made.
fn point() {
    if let Some((t, me)) = me() {
        let mut s = t.state.lock().unwrap();
        s.calls += 1;
        if s.switch_at.contains(&s.calls) && !s.done[1 - me] {
            s.taken += 1;
            t.over(me, s);
        }
    }
}

/// This thread can do nothing until the other one has done something.
pub fn blocked() {
    if let Some((t, me)) = me() {
        let s = t.state.lock().unwrap();
        t.over(me, s);
    }
}

fn disks() -> &'static Mutex<HashMap<u64, Arc<Mutex<Disk>>>> {
    static mut D: Option<Mutex<HashMap<u64, Arc<Mutex<Disk>>>>> = None;
    static I: Once = Once::new();
    unsafe {
        I.call_once(|| D = Some(Mutex::new(HashMap::new())));
        let p = std::ptr::addr_of!(D);
        (*p).as_ref().unwrap()
    }
}

impl DiskRef {
    pub fn new(image: &Image) -> DiskRef {
        register();
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        let mut d = Disk::default();
        for (n, b) in image {
            d.files.insert(n.clone(), File { data: b.clone(), ..Default::default() });
        }
        let disk = Arc::new(Mutex::new(d));
        disks().lock().unwrap().insert(id, disk.clone());
        DiskRef { id, disk }
    }
    pub fn uri(&self) -> String {
        format!("file:/mcvfs/{}/db?vfs=mcvfs", self.id)
    }
    pub fn image(&self) -> Image {
        self.disk.lock().unwrap().files.iter().map(|(n, f)| (n.clone(), f.data.clone())).collect()
    }
    pub fn mark(&self, n: usize) {
        let mut d = self.disk.lock().unwrap();
        if d.tracing {
            d.trace.push(Op { file: String::new(), act: Act::Mark(n) });
        }
    }
    pub fn trace_from_here(&self) {
        let mut d = self.disk.lock().unwrap();
        d.trace.clear();
        d.tracing = true;
    }
    pub fn take_trace(&self) -> Vec<Op> {
        let mut d = self.disk.lock().unwrap();
        d.tracing = false;
        std::mem::take(&mut d.trace)
    }
    /// Start counting calls; fail as given.
    pub fn arm(&self, f: Option<Fault>) {
        let mut d = self.disk.lock().unwrap();
        d.calls = 0;
        d.kinds.clear();
        d.fired.clear();
        d.fault = f;
    }
    /// Stop failing; the calls made since, and the kinds of those that failed.
    pub fn disarm(&self) -> (u64, Vec<Kind>, Vec<Kind>) {
        let mut d = self.disk.lock().unwrap();
        d.fault = None;
        (d.calls, std::mem::take(&mut d.kinds), std::mem::take(&mut d.fired))
    }
}

impl Drop for DiskRef {
    fn drop(&mut self) {
        disks().lock().unwrap().remove(&self.id);
    }
}

impl Disk {
    fn tick(&mut self, k: Kind) -> Option<c_int> {
        let n = self.calls;
        self.calls += 1;
        if self.kinds.len() < 100_000 {
            self.kinds.push(k);
        }
        let f = self.fault?;
        if n < f.at || n >= f.at.saturating_add(f.len) {
            return None;
        }
        self.fired.push(k);
        Some(match k {
            Kind::Open => ffi::SQLITE_CANTOPEN,
            Kind::Read => ffi::SQLITE_IOERR | (1 << 8),
            Kind::Write if f.full => ffi::SQLITE_FULL,
            Kind::Write => ffi::SQLITE_IOERR | (3 << 8),
            Kind::Sync => ffi::SQLITE_IOERR | (4 << 8),
            Kind::Truncate => ffi::SQLITE_IOERR | (6 << 8),
            Kind::Size => ffi::SQLITE_IOERR | (7 << 8),
            Kind::Lock => ffi::SQLITE_BUSY,
            Kind::ShmLock => ffi::SQLITE_BUSY,
            Kind::ShmMap => ffi::SQLITE_IOERR | (21 << 8),
            Kind::Delete => ffi::SQLITE_IOERR | (10 << 8),
            Kind::Access => ffi::SQLITE_IOERR | (13 << 8),
        })
    }
    fn rec(&mut self, file: &str, act: Act) {
        if self.tracing {
            self.trace.push(Op { file: file.to_string(), act });
        }
    }
}

struct Inner {
    disk: Arc<Mutex<Disk>>,
    name: String,
    level: c_int,
    shm_shared: u8,
    shm_excl: u8,
    delete_on_close: bool,
}

#[repr(C)]
struct F {
    base: ffi::sqlite3_file,
    inner: *mut Inner,
}

unsafe fn inner<'a>(f: *mut ffi::sqlite3_file) -> &'a mut Inner {
    &mut *(*(f as *mut F)).inner
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    let p = (*(f as *mut F)).inner;
    if !p.is_null() {
        x_unlock(f, 0);
        let b = Box::from_raw(p);
        if b.delete_on_close {
            b.disk.lock().unwrap().files.remove(&b.name);
        }
        (*(f as *mut F)).inner = std::ptr::null_mut();
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Read) {
        return e;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let empty = vec![];
    let data = d.files.get(&i.name).map(|x| &x.data).unwrap_or(&empty);
    let off = off as usize;
    let have = data.len().saturating_sub(off).min(n as usize);
    out[..have].copy_from_slice(&data[off.min(data.len())..off.min(data.len()) + have]);
    if have < n as usize {
        for b in &mut out[have..] {
            *b = 0;
        }
        return ffi::SQLITE_IOERR | (2 << 8);
    }
    ffi::SQLITE_OK
}

fn write(data: &mut Vec<u8>, off: u64, bytes: &[u8]) {
    let end = off as usize + bytes.len();
    if data.len() < end {
        data.resize(end, 0);
    }
    data[off as usize..end].copy_from_slice(bytes);
}

unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Write) {
        return e;
    }
    let bytes = std::slice::from_raw_parts(buf as *const u8, n as usize);
    if d.tracing {
        d.rec(&i.name, Act::Write(off as u64, Arc::new(bytes.to_vec())));
    }
    write(&mut d.files.entry(i.name.clone()).or_default().data, off as u64, bytes);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, n: ffi::sqlite3_int64) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Truncate) {
        return e;
    }
    d.rec(&i.name, Act::Truncate(n as u64));
    d.files.entry(i.name.clone()).or_default().data.resize(n as usize, 0);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Sync) {
        return e;
    }
    d.rec(&i.name, Act::Sync);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_size(f: *mut ffi::sqlite3_file, n: *mut ffi::sqlite3_int64) -> c_int {
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Size) {
        return e;
    }
    *n = d.files.get(&i.name).map_or(0, |x| x.data.len()) as i64;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    point();
    let i = inner(f);
    if i.level >= level {
        return ffi::SQLITE_OK;
    }
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::Lock) {
        return e;
    }
    let me = i.level;
    let x = d.files.entry(i.name.clone()).or_default();
    if me == 0 {
        if x.pending || x.exclusive {
            return ffi::SQLITE_BUSY;
        }
        x.shared += 1;
        i.level = 1;
    }
    if level >= 2 && i.level < 2 {
        if x.reserved {
            return ffi::SQLITE_BUSY;
        }
        x.reserved = true;
        i.level = 2;
    }
    if level >= 4 {
        x.pending = true;
        i.level = 3;
        if x.shared > 1 {
            return ffi::SQLITE_BUSY;
        }
        x.exclusive = true;
        i.level = 4;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    point();
    let i = inner(f);
    if i.level <= level {
        return ffi::SQLITE_OK;
    }
    let mut d = i.disk.lock().unwrap();
    let x = d.files.entry(i.name.clone()).or_default();
    if i.level >= 4 {
        x.exclusive = false;
    }
    if i.level >= 3 {
        x.pending = false;
    }
    if i.level >= 2 {
        x.reserved = false;
    }
    if level == 0 {
        x.shared -= 1;
    }
    i.level = level;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let i = inner(f);
    let d = i.disk.lock().unwrap();
    *out = d.files.get(&i.name).map_or(false, |x| x.reserved) as c_int;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_control(_f: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}

unsafe extern "C" fn x_sector(_f: *mut ffi::sqlite3_file) -> c_int {
    4096
}

unsafe extern "C" fn x_device(_f: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

unsafe extern "C" fn x_shm_map(f: *mut ffi::sqlite3_file, region: c_int, size: c_int, extend: c_int, out: *mut *mut c_void) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    if let Some(e) = d.tick(Kind::ShmMap) {
        *out = std::ptr::null_mut();
        return e;
    }
    let x = d.files.entry(i.name.clone()).or_default();
    while x.shm.regions.len() <= region as usize {
        if extend == 0 {
            *out = std::ptr::null_mut();
            return ffi::SQLITE_OK;
        }
        x.shm.regions.push(vec![0u64; size as usize / 8]);
    }
    *out = x.shm.regions[region as usize].as_mut_ptr() as *mut c_void;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_shm_lock(f: *mut ffi::sqlite3_file, off: c_int, n: c_int, flags: c_int) -> c_int {
    point();
    let i = inner(f);
    let mut d = i.disk.lock().unwrap();
    let (unlock, shared) = (flags & 1 != 0, flags & 4 != 0);
    if !unlock {
        if let Some(e) = d.tick(Kind::ShmLock) {
            return e;
        }
    }
    let x = &mut d.files.entry(i.name.clone()).or_default().shm;
    let slots = off as usize..(off + n) as usize;
    if unlock {
        for s in slots {
            if i.shm_shared & (1 << s) != 0 {
                x.shared[s] -= 1;
                i.shm_shared &= !(1 << s);
            }
            if i.shm_excl & (1 << s) != 0 {
                x.excl[s] = false;
                i.shm_excl &= !(1 << s);
            }
        }
    } else if shared {
        for s in slots.clone() {
            if x.excl[s] && i.shm_excl & (1 << s) == 0 {
                return ffi::SQLITE_BUSY;
            }
        }
        for s in slots {
            if i.shm_shared & (1 << s) == 0 {
                x.shared[s] += 1;
                i.shm_shared |= 1 << s;
            }
        }
    } else {
        for s in slots.clone() {
            let mine = (i.shm_shared >> s & 1) as u32;
            if x.shared[s] > mine || (x.excl[s] && i.shm_excl & (1 << s) == 0) {
                return ffi::SQLITE_BUSY;
            }
        }
        for s in slots {
            x.excl[s] = true;
            i.shm_excl |= 1 << s;
        }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_shm_barrier(_f: *mut ffi::sqlite3_file) {
    std::sync::atomic::fence(Ordering::SeqCst);
}

unsafe extern "C" fn x_shm_unmap(f: *mut ffi::sqlite3_file, delete: c_int) -> c_int {
    x_shm_lock(f, 0, 8, 1);
    if delete != 0 {
        let i = inner(f);
        let mut d = i.disk.lock().unwrap();
        if let Some(x) = d.files.get_mut(&i.name) {
            x.shm = Shm::default();
        }
    }
    ffi::SQLITE_OK
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_reserved),
    xFileControl: Some(x_control),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

/// The disk and file a path denotes.
unsafe fn resolve(name: *const c_char) -> Option<(Arc<Mutex<Disk>>, String)> {
    let s = CStr::from_ptr(name).to_str().ok()?;
    let rest = s.strip_prefix("/mcvfs/")?;
    let mut it = rest.splitn(2, '/');
    let id: u64 = it.next()?.parse().ok()?;
    let d = disks().lock().unwrap().get(&id)?.clone();
    Some((d, it.next()?.to_string()))
}

unsafe extern "C" fn v_open(_v: *mut ffi::sqlite3_vfs, name: *const c_char, f: *mut ffi::sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    point();
    (*f).pMethods = std::ptr::null();
    if name.is_null() {
        return ffi::SQLITE_CANTOPEN;
    }
    let (disk, name) = match resolve(name) {
        Some(x) => x,
        None => return ffi::SQLITE_CANTOPEN,
    };
    {
        let mut d = disk.lock().unwrap();
        if let Some(e) = d.tick(Kind::Open) {
            return e;
        }
        if !d.files.contains_key(&name) {
            if flags & ffi::SQLITE_OPEN_CREATE == 0 {
                return ffi::SQLITE_CANTOPEN;
            }
            d.files.insert(name.clone(), File::default());
            d.rec(&name, Act::Create);
        }
    }
    let i = Box::new(Inner { disk, name, level: 0, shm_shared: 0, shm_excl: 0, delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0 });
    (*(f as *mut F)).inner = Box::into_raw(i);
    (*f).pMethods = &METHODS;
    if !out.is_null() {
        *out = flags;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, dirsync: c_int) -> c_int {
    point();
    match resolve(name) {
        None => ffi::SQLITE_IOERR | (10 << 8),
        Some((d, n)) => {
            let mut d = d.lock().unwrap();
            if let Some(e) = d.tick(Kind::Delete) {
                return e;
            }
            if d.files.remove(&n).is_none() {
                return ffi::SQLITE_IOERR | (23 << 8);
            }
            d.rec(&n, Act::Delete(dirsync != 0));
            ffi::SQLITE_OK
        }
    }
}

unsafe extern "C" fn v_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    point();
    *out = 0;
    if let Some((d, n)) = resolve(name) {
        let mut d = d.lock().unwrap();
        if let Some(e) = d.tick(Kind::Access) {
            return e;
        }
        // Like the unix VFS, an empty file doesn't exist.
        *out = match d.files.get(&n) {
            Some(f) => (flags != 0 || !f.data.is_empty()) as c_int,
            None => 0,
        };
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_full(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let s = CStr::from_ptr(name).to_bytes_with_nul();
    if s.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, out, s.len());
    ffi::SQLITE_OK
}

unsafe fn base() -> *mut ffi::sqlite3_vfs {
    ffi::sqlite3_vfs_find(b"unix\0".as_ptr() as *const c_char)
}

unsafe extern "C" fn v_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let b = base();
    ((*b).xRandomness.unwrap())(b, n, out)
}

unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    // Only another thread is going to release a lock meanwhile.
    blocked();
    us
}

unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    let b = base();
    ((*b).xCurrentTime.unwrap())(b, out)
}

unsafe extern "C" fn v_time64(_v: *mut ffi::sqlite3_vfs, out: *mut ffi::sqlite3_int64) -> c_int {
    let b = base();
    ((*b).xCurrentTimeInt64.unwrap())(b, out)
}

unsafe extern "C" fn v_last(_v: *mut ffi::sqlite3_vfs, _n: c_int, _out: *mut c_char) -> c_int {
    0
}

fn register() {
    INIT.call_once(|| unsafe {
        ffi::sqlite3_initialize();
        let name = CString::new("mcvfs").unwrap().into_raw();
        let v = Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<F>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: name,
            pAppData: std::ptr::null_mut(),
            xOpen: Some(v_open),
            xDelete: Some(v_delete),
            xAccess: Some(v_access),
            xFullPathname: Some(v_full),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(v_random),
            xSleep: Some(v_sleep),
            xCurrentTime: Some(v_time),
            xGetLastError: Some(v_last),
            xCurrentTimeInt64: Some(v_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        });
        let rc = ffi::sqlite3_vfs_register(Box::into_raw(v), 0);
        assert_eq!(rc, ffi::SQLITE_OK);
    });
}

/// What may be on the medium after a crash that happens when the first `k` operations of `trace` have
/// been issued from `base`: of each file, what was synced, and of what was not yet synced everything,
/// nothing, or the given kinds of parts.
pub fn crash_images(base: &Image, trace: &[Op], k: usize, deep: bool) -> Vec<Image> {
    // Per file: the durable content (None: does not exist), and the pending operations.
    let mut files: BTreeMap<String, (Option<Vec<u8>>, Vec<Act>)> = base.iter().map(|(n, b)| (n.clone(), (Some(b.clone()), vec![]))).collect();
    for op in &trace[..k] {
        if let Act::Mark(_) = op.act {
            continue;
        }
        let e = files.entry(op.file.clone()).or_insert((None, vec![]));
        e.1.push(op.act.clone());
        let settled = match op.act {
            Act::Sync | Act::Delete(true) => true,
            _ => false,
        };
        // Journaling file systems persist a directory's changes in order, with any later sync.
        if op.act == Act::Sync {
            for x in files.values_mut() {
                if let Some(n) = x.1.iter().rposition(|a| matches!(a, Act::Delete(_))) {
                    for a in x.1.drain(..=n).collect::<Vec<_>>() {
                        apply(&mut x.0, &a);
                    }
                }
            }
        }
        let e = files.entry(op.file.clone()).or_insert((None, vec![]));
        if settled {
            let acts = std::mem::take(&mut e.1);
            for a in &acts {
                apply(&mut e.0, a);
            }
        }
    }
    let mut images: Vec<Image> = vec![Image::new()];
    for (name, (durable, pending)) in files {
        let n = pending.len();
        let mut variants: Vec<Vec<Act>> = vec![];
        let all: Vec<usize> = (0..n).collect();
        let take = |ix: &[usize]| ix.iter().map(|i| pending[*i].clone()).collect::<Vec<_>>();
        variants.push(take(&all));
        if n > 0 {
            variants.push(vec![]);
            // Parts of the last operation, with everything or nothing before it.
            if let Act::Write(off, b) = &pending[n - 1] {
                let mut cuts = vec![b.len() / 2];
                if b.len() > 4096 {
                    cuts.push(512);
                    cuts.push(b.len() - 512);
                }
                for c in cuts {
                    if c == 0 {
                        continue;
                    }
                    let mut v = take(&all[..n - 1]);
                    v.push(Act::Write(*off, Arc::new(b[..c].to_vec())));
                    variants.push(v);
                    let mut v = take(&all[..n - 1]);
                    v.push(Act::Write(*off + c as u64, Arc::new(b[c..].to_vec())));
                    variants.push(v);
                }
            }
            if n > 1 {
                // The last operation alone; every other single operation missing.
                variants.push(take(&all[n - 1..]));
                for miss in 0..n - 1 {
                    if !deep && miss != 0 && miss != n - 2 {
                        continue;
                    }
                    variants.push(take(&all.iter().cloned().filter(|i| *i != miss).collect::<Vec<_>>()));
                }
                if deep && n <= 5 {
                    for set in 0..1usize << (n - 1) {
                        let mut ix: Vec<usize> = (0..n - 1).filter(|i| set >> i & 1 == 1).collect();
                        ix.push(n - 1);
                        variants.push(take(&ix));
                    }
                }
            }
        }
        let mut contents: Vec<Option<Vec<u8>>> = vec![];
        for v in variants {
            let mut c = durable.clone();
            for a in &v {
                apply(&mut c, a);
            }
            if !contents.contains(&c) {
                contents.push(c);
            }
        }
        // Several files with pending operations: combine fully when deep, else all or nothing of the others.
        let mut next = vec![];
        for (x, img) in images.iter().enumerate() {
            for (y, c) in contents.iter().enumerate() {
                if !deep && x > 1 && y > 1 {
                    continue;
                }
                let mut i = img.clone();
                if let Some(b) = c {
                    i.insert(name.clone(), b.clone());
                }
                next.push(i);
            }
        }
        images = next;
    }
    images
}

fn apply(c: &mut Option<Vec<u8>>, a: &Act) {
    match a {
        Act::Create => {
            c.get_or_insert_with(Vec::new);
        }
        Act::Write(off, b) => write(c.get_or_insert_with(Vec::new), *off, b),
        Act::Truncate(n) => c.get_or_insert_with(Vec::new).resize(*n as usize, 0),
        Act::Delete(_) => *c = None,
        Act::Sync | Act::Mark(_) => {}
    }
}
