//! `std` as the command line tools see it: files live in memory, a write may
//! fail at a given place, and standard output is recorded.
pub use ::std::*;

/// The recorded environment of one run.
pub struct World {
    pub files: Vec<(String, Vec<u8>)>,
    pub out: String,
    pub err: String,
    pub args: Vec<String>,
    /// Writes beyond this many bytes (over all files) fail, if given.
    pub room: Option<u64>,
    /// The write that does not fit is first done in part.
    pub partial: bool,
    /// Reads beyond this many bytes (of each open file) fail, if given.
    pub readable: Option<u64>,
    pub written: u64,
    pub failed: bool,
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe {
        if WORLD.is_none() {
            reset();
        }
        WORLD.as_mut().unwrap()
    }
}
pub fn reset() {
    unsafe {
        WORLD = Some(World { files: vec![], out: String::new(), err: String::new(), args: vec![], room: None, partial: false, readable: None, written: 0, failed: false });
    }
}
impl World {
    pub fn put(&mut self, path: &str, text: &[u8]) {
        self.files.retain(|f| f.0 != path);
        self.files.push((path.to_string(), text.to_vec()));
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        self.files.iter().find(|f| f.0 == path).map(|f| &f.1)
    }
}

pub fn record(a: ::std::fmt::Arguments<'_>, newline: bool, err: bool) {
    use ::std::fmt::Write;
    let w = world();
    let o = if err { &mut w.err } else { &mut w.out };
    let _ = o.write_fmt(a);
    if newline {
        o.push('\n');
    }
}
#[macro_export]
macro_rules! println {
    () => { $crate::record(::std::format_args!(""), true, false) };
    ($($t:tt)*) => { $crate::record(::std::format_args!($($t)*), true, false) };
}
#[macro_export]
macro_rules! print {
    ($($t:tt)*) => { $crate::record(::std::format_args!($($t)*), false, false) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::record(::std::format_args!(""), true, true) };
    ($($t:tt)*) => { $crate::record(::std::format_args!($($t)*), true, true) };
}
#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => { $crate::record(::std::format_args!($($t)*), false, true) };
}

pub mod io {
    pub use ::std::io::*;
    /// Recorded standard output.
    #[derive(Debug)]
    pub struct Stdout;
    pub type StdoutLock<'a> = Stdout;
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            crate::world().out.push_str(::std::str::from_utf8(b).unwrap());
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}

pub mod fs {
    use crate::world;
    use ::std::cell::Cell;
    use ::std::io::{self, Read, Seek, SeekFrom, Write};
    use ::std::path::Path;

    #[derive(Debug)]
    pub struct File {
        path: String,
        pos: Cell<usize>,
        write: bool,
    }
    fn name(p: &Path) -> String {
        p.to_str().unwrap().to_string()
    }
    fn absent() -> io::Error {
        io::Error::from(io::ErrorKind::NotFound)
    }
    fn full() -> io::Error {
        io::Error::from(io::ErrorKind::StorageFull)
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            let path = name(p.as_ref());
            if world().get(&path).is_none() {
                return Err(absent());
            }
            Ok(File { path, pos: Cell::new(0), write: false })
        }
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            let path = name(p.as_ref());
            world().put(&path, b"");
            Ok(File { path, pos: Cell::new(0), write: true })
        }
        pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
            if world().get(&name(p.as_ref())).is_some() {
                return Err(io::Error::from(io::ErrorKind::AlreadyExists));
            }
            Self::create(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn set_len(&self, n: u64) -> io::Result<()> {
            let Some(c) = world().files.iter_mut().find(|x| x.0 == self.path) else { return Err(absent()) };
            c.1.resize(n as usize, 0);
            Ok(())
        }
        pub fn metadata(&self) -> io::Result<Metadata> {
            metadata(&self.path)
        }
        pub fn sync_all(&self) -> io::Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> io::Result<()> {
            Ok(())
        }
    }
    fn read_at(f: &File, b: &mut [u8]) -> io::Result<usize> {
        let w = world();
        if let Some(n) = w.readable {
            if f.pos.get() as u64 >= n {
                w.failed = true;
                return Err(io::Error::from(io::ErrorKind::Other));
            }
        }
        let mut end = usize::MAX;
        if let Some(n) = w.readable {
            end = n as usize - f.pos.get();
        }
        let Some(c) = w.get(&f.path) else { return Err(absent()) };
        let b_len = b.len().min(end);
        let b = &mut b[..b_len];
        let n = b.len().min(c.len() - f.pos.get().min(c.len()));
        b[..n].copy_from_slice(&c[f.pos.get()..f.pos.get() + n]);
        f.pos.set(f.pos.get() + n);
        Ok(n)
    }
    fn write_at(f: &File, mut b: &[u8]) -> io::Result<usize> {
        let w = world();
        if !f.write {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        if let Some(room) = w.room {
            if w.partial && w.written < room && w.written + b.len() as u64 > room {
                b = &b[..(room - w.written) as usize];
            }
            if w.written + b.len() as u64 > room {
                w.failed = true;
                return Err(full());
            }
        }
        w.written += b.len() as u64;
        let Some(c) = w.files.iter_mut().find(|x| x.0 == f.path) else { return Err(absent()) };
        let c = &mut c.1;
        let pos = f.pos.get();
        if pos == c.len() {
            c.extend_from_slice(b);
        } else {
            for (i, x) in b.iter().enumerate() {
                if pos + i < c.len() {
                    c[pos + i] = *x;
                } else {
                    c.push(*x);
                }
            }
        }
        f.pos.set(pos + b.len());
        Ok(b.len())
    }
    impl Read for File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            read_at(self, b)
        }
    }
    impl Write for File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            write_at(self, b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            let pos = match p {
                SeekFrom::Start(n) => n as usize,
                SeekFrom::Current(n) => (self.pos.get() as i64 + n) as usize,
                SeekFrom::End(n) => (world().get(&self.path).map_or(0, |c| c.len()) as i64 + n) as usize,
            };
            self.pos.set(pos);
            Ok(pos as u64)
        }
    }
    impl Read for &File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            read_at(self, b)
        }
    }
    impl Write for &File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            write_at(self, b)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Seek for &File {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            let pos = match p {
                SeekFrom::Start(n) => n as usize,
                SeekFrom::Current(n) => (self.pos.get() as i64 + n) as usize,
                SeekFrom::End(n) => (world().get(&self.path).map_or(0, |c| c.len()) as i64 + n) as usize,
            };
            self.pos.set(pos);
            Ok(pos as u64)
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct OpenOptions {
        write: bool,
        append: bool,
        truncate: bool,
        create: bool,
        fresh: bool,
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn read(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn write(&mut self, x: bool) -> &mut Self {
            self.write = x;
            self
        }
        pub fn append(&mut self, x: bool) -> &mut Self {
            self.append = x;
            self
        }
        pub fn truncate(&mut self, x: bool) -> &mut Self {
            self.truncate = x;
            self
        }
        pub fn create(&mut self, x: bool) -> &mut Self {
            self.create = x;
            self
        }
        pub fn create_new(&mut self, x: bool) -> &mut Self {
            self.fresh = x;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
            let path = name(p.as_ref());
            let there = world().get(&path).is_some();
            if there && self.fresh {
                return Err(io::Error::from(io::ErrorKind::AlreadyExists));
            }
            if !there && !self.create && !self.fresh {
                return Err(absent());
            }
            if !there || self.truncate {
                world().put(&path, b"");
            }
            let end = world().get(&path).map_or(0, |c| c.len());
            Ok(File { path, pos: Cell::new(if self.append { end } else { 0 }), write: self.write || self.append })
        }
    }
    /// Of a file: its length.
    pub struct Metadata(u64);
    impl Metadata {
        pub fn len(&self) -> u64 {
            self.0
        }
        pub fn is_file(&self) -> bool {
            true
        }
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
        world().get(&name(p.as_ref())).map(|c| Metadata(c.len() as u64)).ok_or_else(absent)
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
        let n = name(p.as_ref());
        let w = world();
        let before = w.files.len();
        w.files.retain(|x| x.0 != n);
        if w.files.len() == before {
            return Err(absent());
        }
        Ok(())
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
        let c = world().get(&name(p.as_ref())).cloned().ok_or_else(absent)?;
        remove_file(p)?;
        world().put(&name(q.as_ref()), &c);
        Ok(())
    }
    pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
        Ok(world().get(&name(p.as_ref())).is_some())
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        let mut s = String::new();
        File::open(p)?.read_to_string(&mut s)?;
        Ok(s)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        File::create(p)?.write_all(c.as_ref())
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        File::open(p)?.read_to_end(&mut v)?;
        Ok(v)
    }
}

/// Numbers as text. The executor formats a symbolic number as `<id:precision>`.
pub mod num {
    use ::std::fmt;
    extern "C" {
        fn es_hold(x: f64) -> u64;
        fn es_held(id: u64) -> f64;
    }
    #[no_mangle]
    pub fn es_fmt_f64(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let id = unsafe { es_hold(*x) };
        let p = match f.precision() {
            Some(p) => p as u64,
            None => 99,
        };
        let mut b = [0u8; 48];
        let mut n = b.len();
        n -= 1;
        b[n] = b'>';
        let mut put = |mut v: u64, n: &mut usize| loop {
            *n -= 1;
            b[*n] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return;
            }
        };
        put(p, &mut n);
        n -= 1;
        let colon = n;
        put(id, &mut n);
        b[colon] = b':';
        n -= 1;
        b[n] = b'<';
        f.write_str(unsafe { ::std::str::from_utf8_unchecked(&b[n..]) })
    }
    /// The number and, for a formatted one, its decimals (99: all).
    pub fn parse(s: &str) -> Option<(f64, u32)> {
        if let Some(r) = s.strip_prefix('<') {
            let (id, p) = r.strip_suffix('>')?.split_once(':')?;
            return Some((unsafe { es_held(id.parse().ok()?) }, p.parse().ok()?));
        }
        let p = match s.split_once('.') {
            Some((_, d)) => d.len() as u32,
            None => 0,
        };
        Some((s.parse().ok()?, p))
    }
}
