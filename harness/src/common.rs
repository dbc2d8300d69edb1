use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row};
use chopper::error::{CliResult, Error};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{self, Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, n: usize, of: usize) -> bool { self.below(of) < n }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Fail { pub key: String, pub case: String, pub why: String }
pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub dir: PathBuf,
    pub cases: u64,
    pub seen: HashSet<u64>,
    pub fails: Vec<Fail>,
    pub samples: Vec<String>,
    crumb: std::fs::File,
}
static BEAT: AtomicU64 = AtomicU64::new(0);
pub fn beat() -> u64 { BEAT.load(Ordering::Relaxed) }

impl Ctx {
    pub fn new(seed: u64, thorough: bool, dir: PathBuf) -> Ctx {
        let crumb = std::fs::File::create(dir.join("crumb")).unwrap();
        Ctx { rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xC0FFEE), thorough, dir, cases: 0, seen: HashSet::new(), fails: Vec::new(), samples: Vec::new(), crumb }
    }
    /// how many random cases: q in the quick tier, more in the thorough one
    pub fn n(&self, q: usize) -> usize { if self.thorough { q * 15 } else { q } }
    /// one case: desc writes the input out, f runs it on the real code and compares with the contract
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, key: &str, desc: String, f: F) {
        if self.fails.len() >= 12 { return; }
        BEAT.fetch_add(1, Ordering::Relaxed);
        let mut text = format!("{}: {}", key, desc);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        self.cases += 1;
        self.seen.insert(h.finish());
        cut(&mut text, 4000);
        let _ = self.crumb.seek(io::SeekFrom::Start(0));
        let _ = self.crumb.write_all(text.as_bytes());
        let _ = self.crumb.write_all(b"\n\x00\n");
        if self.samples.len() < 4 && (self.cases % 37 == 3 || self.samples.is_empty()) { let mut t = text.clone(); cut(&mut t, 400); self.samples.push(t); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let why = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let mut why = why;
        cut(&mut why, 3000);
        self.fails.push(Fail { key: key.to_string(), case: text, why });
    }
    pub fn scratch(&self, name: &str) -> PathBuf { self.dir.join(name) }
}
pub fn cut(s: &mut String, n: usize) {
    if s.len() > n { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want { Ok(()) } else { let (mut g, mut w) = (format!("{:?}", got), format!("{:?}", want)); cut(&mut g, 1200); cut(&mut w, 1200); Err(format!("{}: got {} expected {}", what, g, w)) }
}
pub fn show_err<T>(r: CliResult<T>) -> Result<T, String> { r.map_err(|e| format!("{}", e)) }
pub fn er<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("unexpected error: {}", e)) }

// ---- rows in a comparable form (floats by their bits)
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V { Bool(bool), Byte(u8), Buf(Vec<u8>), Char(u16), D(u64), F(u32), Int(i32), Long(i64), Short(i16), S(String), None }
pub type R = (u64, Vec<V>);
pub fn v_of(f: &FieldValue) -> V {
    match f {
        FieldValue::Boolean(x) => V::Bool(*x), FieldValue::Byte(x) => V::Byte(*x), FieldValue::ByteBuf(x) => V::Buf(x.clone()), FieldValue::Char(x) => V::Char(*x),
        FieldValue::Double(x) => V::D(x.to_bits()), FieldValue::Float(x) => V::F(x.to_bits()), FieldValue::Int(x) => V::Int(*x), FieldValue::Long(x) => V::Long(*x),
        FieldValue::Short(x) => V::Short(*x), FieldValue::String(x) => V::S(x.clone()), FieldValue::None => V::None,
    }
}
pub fn f_of(v: &V) -> FieldValue {
    match v {
        V::Bool(x) => FieldValue::Boolean(*x), V::Byte(x) => FieldValue::Byte(*x), V::Buf(x) => FieldValue::ByteBuf(x.clone()), V::Char(x) => FieldValue::Char(*x),
        V::D(x) => FieldValue::Double(f64::from_bits(*x)), V::F(x) => FieldValue::Float(f32::from_bits(*x)), V::Int(x) => FieldValue::Int(*x), V::Long(x) => FieldValue::Long(*x),
        V::Short(x) => FieldValue::Short(*x), V::S(x) => FieldValue::String(x.clone()), V::None => FieldValue::None,
    }
}
pub fn r_of(r: &Row) -> R { (r.timestamp, r.field_values.iter().map(v_of).collect()) }
pub fn row_of(r: &R) -> Row { Row { timestamp: r.0, field_values: r.1.iter().map(f_of).collect() } }
pub fn header(names: &[&str], t: FieldType) -> Header { Header::new(names.iter().map(|s| s.to_string()).collect(), names.iter().map(|_| t).collect()) }

/// errors of different kinds
pub fn failure(k: usize, text: &str) -> Error {
    use io::ErrorKind::*;
    match k % 8 { 0 | 1 => Error::from(text), k => Error::Io(io::Error::new([Other, UnexpectedEof, BrokenPipe, InvalidData, WouldBlock, WriteZero][k - 2], text.to_string())) }
}
// ---- a source from memory; end: None = clean end, Some(text) = fails there.  calls counts next_row
pub struct MemSource { pub header: Header, pub rows: Vec<R>, pub pos: usize, pub fail_at_end: bool, pub calls: Rc<RefCell<usize>> }
impl MemSource {
    pub fn new(header: Header, rows: Vec<R>, fail_at_end: bool) -> Box<dyn Source> { Box::new(MemSource { header, rows, pos: 0, fail_at_end, calls: Rc::new(RefCell::new(0)) }) }
}
impl Source for MemSource {
    fn header(&self) -> &Header { &self.header }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        *self.calls.borrow_mut() += 1;
        if self.pos < self.rows.len() { self.pos += 1; return Ok(Some(row_of(&self.rows[self.pos - 1]))); }
        if self.fail_at_end { return Err(Error::from("source failed")); }
        Ok(None)
    }
}
// ---- sinks that record what they are given
#[derive(Clone, Debug, PartialEq)]
pub enum Got { Row(usize, R), Flush(usize), Header(usize, Vec<String>, Vec<FieldType>) }
pub type Log = Rc<RefCell<Vec<Got>>>;
/// how a test sink treats a row: number of copies is chosen by the row's timestamp and its own history
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act { Pass, Drop, Dup(usize), DropOdd, Tag, DupNth(usize), FailAt(usize), Same(usize), Back(usize) }
pub struct RecSink { pub id: usize, pub act: Act, pub log: Log, pub seen: usize, pub add_col: Option<String>, pub fail_flush: Option<usize>, pub flushes: usize }
pub fn apply(act: Act, seen: usize, id: usize, row: &R) -> Option<Vec<R>> {
    let tag = |n: u64| { let mut r = row.clone(); r.1.push(V::Long(id as i64 * 1000 + n as i64)); r };
    Some(match act {
        Act::Pass => vec![row.clone()],
        Act::Drop => vec![],
        Act::Dup(n) => (0..n).map(|i| tag(i as u64)).collect(),
        Act::DropOdd => if row.0 % 2 == 1 { vec![] } else { vec![row.clone()] },
        Act::Tag => vec![tag(seen as u64)],
        Act::Same(n) => vec![row.clone(); n],
        Act::Back(n) => (0..n).map(|i| { let mut r = tag(i as u64); r.0 = r.0.wrapping_mul(7919).wrapping_sub(i as u64 * 5); r }).collect(),
        Act::DupNth(n) => if seen % n == 0 { vec![tag(7), row.clone(), tag(8)] } else { vec![row.clone()] },
        Act::FailAt(n) => if seen == n { return None } else { vec![row.clone()] },
    })
}
impl RecSink { pub fn new(id: usize, act: Act, log: &Log) -> Box<dyn HeaderSink> { Box::new(RecSink { id, act, log: log.clone(), seen: 0, add_col: None, fail_flush: None, flushes: 0 }) } }
impl HeaderSink for RecSink {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.log.borrow_mut().push(Got::Header(self.id, header.field_names().clone(), header.field_types().clone()));
        // a name that starts with = is the new one of the first column
        if let Some(c) = &self.add_col { if c.starts_with('=') { if let Some(n) = header.field_names_mut().first_mut() { *n = c.clone(); } } else { header.field_names_mut().push(c.clone()); header.field_types_mut().push(FieldType::Long); } }
        Ok(self.boxed())
    }
}
impl DataSink for RecSink {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        if io_rows.len() != 1 { return Err(Error::from(format!("sink {} was given {} rows at once", self.id, io_rows.len()))); }
        let r = r_of(&io_rows[0]);
        let out = apply(self.act, self.seen, self.id, &r);
        self.seen += 1;
        self.log.borrow_mut().push(Got::Row(self.id, r));
        match out { None => return Err(failure(self.id + self.seen, "sink failed")), Some(o) => *io_rows = o.iter().map(row_of).collect() }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> { self.log.borrow_mut().push(Got::Flush(self.id)); self.flushes += 1; if Some(self.flushes - 1) == self.fail_flush { return Err(failure(self.id + self.flushes, "flush failed")); } Ok(()) }
    fn boxed(self) -> Box<dyn DataSink> { Box::new(self) }
}
pub const KINDS: [io::ErrorKind; 6] = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset];
// ---- a reader that gives its bytes in chunks of scripted sizes, and may fail at the end
pub struct Chunked { pub data: Vec<u8>, pub pos: usize, pub sizes: Vec<usize>, pub k: usize, pub fail: Option<io::ErrorKind>, /** fails once, there */ pub hiccup: Option<(usize, io::ErrorKind)> }
impl Chunked {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>) -> Chunked { Chunked { data, pos: 0, sizes, k: 0, fail: None, hiccup: None } }
}
impl Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some((at, k)) = self.hiccup { if self.pos == at { self.hiccup = None; return Err(io::Error::new(k, "scripted failure")); } }
        if self.pos >= self.data.len() { if let Some(k) = self.fail { return Err(io::Error::new(k, "scripted failure")); } return Ok(0); }
        let n = if self.sizes.is_empty() { buf.len() } else { let s = self.sizes[self.k % self.sizes.len()]; self.k += 1; s.max(1) };
        let n = n.min(buf.len()).min(self.hiccup.map_or(self.data.len(), |h| h.0) - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// everything a source gives: its rows, and whether it ended with an error
pub fn drain(s: &mut Box<dyn Source>) -> (Vec<R>, Option<String>) {
    let mut v = Vec::new();
    loop {
        match s.next_row() { Ok(Some(r)) => v.push(r_of(&r)), Ok(None) => return (v, None), Err(e) => return (v, Some(format!("{}", e))) }
        if v.len() > 2_000_000 { return (v, Some("never ends".to_string())); }
    }
}
pub fn hex(b: &[u8]) -> String { let mut s: String = b.iter().map(|x| format!("{:02x}", x)).collect(); cut(&mut s, 600); s }

// ---- write and read of libc, which fail in this thread when asked to: after so many bytes, with that errno, once or from then on
#[derive(Clone, Copy)]
pub struct Fails { pub after: usize, pub errno: i32, pub once: bool }
thread_local! { static WRITES: std::cell::Cell<Option<Fails>> = std::cell::Cell::new(None); static READS: std::cell::Cell<Option<Fails>> = std::cell::Cell::new(None); }
extern "C" { pub fn dlsym(h: *mut u8, name: *const u8) -> *mut u8; pub fn __errno_location() -> *mut i32; }
fn limit(cell: &'static std::thread::LocalKey<std::cell::Cell<Option<Fails>>>, n: usize) -> Result<usize, i32> {
    cell.try_with(|c| match c.get() {
        None => Ok(n),
        Some(f) if f.after == 0 => { if f.once { c.set(None); } Err(f.errno) }
        Some(f) => Ok(n.min(f.after)),
    }).unwrap_or(Ok(n))
}
fn count(cell: &'static std::thread::LocalKey<std::cell::Cell<Option<Fails>>>, n: isize) { let _ = cell.try_with(|c| if let Some(mut f) = c.get() { if n > 0 { f.after -= n as usize; c.set(Some(f)); } }); }
macro_rules! libc_io { ($name:ident, $sym:expr, $ptr:ty, $cell:ident) => {
    #[no_mangle]
    pub unsafe extern "C" fn $name(fd: i32, b: $ptr, n: usize) -> isize {
        let n = match limit(&$cell, n) { Ok(n) => n, Err(e) => { *__errno_location() = e; return -1; } };
        static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut r = REAL.load(std::sync::atomic::Ordering::Relaxed);
        if r == 0 { r = dlsym(!0usize as *mut u8, $sym.as_ptr()) as usize; REAL.store(r, std::sync::atomic::Ordering::Relaxed); }
        let real: extern "C" fn(i32, $ptr, usize) -> isize = std::mem::transmute(r);
        let k = real(fd, b, n);
        count(&$cell, k);
        k
    }
} }
libc_io!(write, b"write\0", *const std::ffi::c_void, WRITES);
libc_io!(read, b"read\0", *mut std::ffi::c_void, READS);
/// runs f with writes (reads) that fail
pub fn with_failing_writes<T>(x: Fails, f: impl FnOnce() -> T) -> T { struct G; impl Drop for G { fn drop(&mut self) { WRITES.with(|c| c.set(None)); } } let _g = G; WRITES.with(|c| c.set(Some(x))); f() }
pub fn with_failing_reads<T>(x: Fails, f: impl FnOnce() -> T) -> T { struct G; impl Drop for G { fn drop(&mut self) { READS.with(|c| c.set(None)); } } let _g = G; READS.with(|c| c.set(Some(x))); f() }
/// EIO, EAGAIN, EFBIG, ENOSPC, EPIPE, ENODEV, EINVAL, ETIMEDOUT, EDQUOT
pub const ERRNOS: [i32; 9] = [5, 11, 27, 28, 32, 19, 22, 110, 122];
