//! The system under test: the real silverfox binary under the shim's fork server.
use std::fs;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

extern "C" {
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn prctl(op: i32, ...) -> i32;
}

#[derive(Clone, Debug)]
pub struct Req {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    /// relative to the worker's scratch root
    pub cwd: String,
    pub clock: i64,
    pub seed: u64,
    pub width: u32,
    /// the clock jumps by so many seconds after so many readings of it
    pub tick: Option<(u32, i64)>,
}

impl Default for Req {
    fn default() -> Self {
        Req {
            args: vec![],
            env: vec![("TZ".into(), "UTC".into())],
            cwd: String::new(),
            clock: 0,
            seed: 1,
            width: 120,
            tick: None,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Res {
    pub status: i32,
    pub out: String,
    pub err: String,
    pub ops: String,
}

impl Res {
    pub fn signaled(&self) -> Option<i32> {
        let s = self.status & 0x7f;
        if s != 0 { Some(s) } else { None }
    }
    pub fn code(&self) -> i32 {
        (self.status >> 8) & 0xff
    }
    /// Ended by a panic, an abort, a signal or a resource limit.
    pub fn crashed(&self) -> bool {
        self.signaled().is_some() || self.code() == 101
    }
    /// Refused: nothing on stdout... and an explanation on stderr
    pub fn clean_ok(&self) -> bool {
        self.err.is_empty() && self.status == 0
    }
    /// The clock jumped during the run.
    pub fn ticked(&self) -> bool {
        self.ops.lines().any(|l| l.starts_with('T'))
    }
    pub fn escapes(&self) -> bool {
        self.ops.lines().any(|l| l.starts_with('X'))
    }
}

/// Characters U+F700..U+F7FF stand for the raw bytes 00..FF.
pub fn raw(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        if ('\u{f700}'..='\u{f7ff}').contains(&c) {
            v.push((c as u32 - 0xf700) as u8);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    v
}

/// The reverse of `raw`.
pub fn unraw(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().map(|x| char::from_u32(0xf700 + *x as u32).unwrap()));
    }
    s
}
fn os(s: &str) -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(raw(s))
}

pub enum Ev {
    Point { kind: u8, size: u64, path: String },
    End(Res),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    Go,
    Fail(i32),
    Short(u64),
    Crash,
    Torn(u64),
    CrashAfter,
}

pub struct Server {
    child: Child,
    tx: fs::File,
    rx: fs::File,
    pub root: PathBuf,
}

fn mkpipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0i32; 2];
    unsafe {
        assert_eq!(pipe2(f.as_mut_ptr(), 0o2000000), 0);
        (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1]))
    }
}

impl Server {
    pub fn spawn(bin: &Path, shim: &Path, root: &Path) -> Server {
        fs::create_dir_all(root).unwrap();
        let (req_r, req_w) = mkpipe();
        let (res_r, res_w) = mkpipe();
        let (a, b): (RawFd, RawFd) = (req_r.as_raw_fd(), res_w.as_raw_fd());
        let mut c = Command::new(bin);
        c.env_clear()
            .env("LD_PRELOAD", shim)
            .env("LD_BIND_NOW", "1")
            .env("SF_SERVER", "1")
            .current_dir(root)
            .stdin(Stdio::null())
            .stdout(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                // F_DUPFD above the targets first, in case of overlap
                let x = fcntl(a, 0, 300);
                let y = fcntl(b, 0, 300);
                dup2(x, 198);
                dup2(y, 199);
                fcntl(x, 2, 1);
                fcntl(y, 2, 1);
                prctl(1, 9); // die with the driver
                Ok(())
            });
        }
        let child = c.spawn().expect("spawn server");
        drop(req_r);
        drop(res_w);
        let mut s = Server { child, tx: fs::File::from(req_w), rx: fs::File::from(res_r), root: root.to_path_buf() };
        let mut h = [0u8; 1];
        s.rx.read_exact(&mut h).expect("server hello");
        assert_eq!(h[0], b'H');
        s
    }

    fn send(&mut self, r: &Req, stepping: bool) {
        let mut b: Vec<u8> = Vec::with_capacity(512);
        let s = |b: &mut Vec<u8>, x: &[u8]| {
            b.extend_from_slice(&(x.len() as u32).to_le_bytes());
            b.extend_from_slice(x);
            b.push(0);
        };
        b.extend_from_slice(&r.clock.to_le_bytes());
        b.extend_from_slice(&r.seed.to_le_bytes());
        let (at, by) = r.tick.unwrap_or((0, 0));
        b.extend_from_slice(&by.to_le_bytes());
        b.extend_from_slice(&at.to_le_bytes());
        b.extend_from_slice(&(stepping as u32).to_le_bytes());
        b.extend_from_slice(&r.width.to_le_bytes());
        let cwd = self.root.join(&r.cwd);
        s(&mut b, cwd.to_str().unwrap().as_bytes());
        s(&mut b, self.root.to_str().unwrap().as_bytes());
        b.extend_from_slice(&((r.args.len() + 1) as u32).to_le_bytes());
        s(&mut b, b"silverfox");
        for a in &r.args {
            s(&mut b, &raw(a));
        }
        b.extend_from_slice(&(r.env.len() as u32).to_le_bytes());
        for (k, v) in &r.env {
            s(&mut b, &raw(&format!("{k}={v}")));
        }
        let mut m = (b.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(&b);
        self.tx.write_all(&m).expect("server write");
    }

    fn r32(&mut self) -> u32 {
        let mut x = [0u8; 4];
        self.rx.read_exact(&mut x).expect("server read");
        u32::from_le_bytes(x)
    }
    fn rbytes(&mut self) -> Vec<u8> {
        let n = self.r32() as usize;
        let mut v = vec![0u8; n];
        self.rx.read_exact(&mut v).expect("server read");
        v
    }
    fn event(&mut self) -> Ev {
        let mut t = [0u8; 1];
        self.rx.read_exact(&mut t).expect("server read");
        match t[0] {
            b'P' => {
                let m = String::from_utf8_lossy(&self.rbytes()).into_owned();
                let mut it = m.splitn(3, ' ');
                let kind = it.next().unwrap().as_bytes()[0];
                let size = it.next().unwrap().parse().unwrap();
                let path = it.next().unwrap_or("").to_string();
                Ev::Point { kind, size, path }
            }
            b'E' => {
                let status = self.r32() as i32;
                let out = String::from_utf8_lossy(&self.rbytes()).into_owned();
                let err = String::from_utf8_lossy(&self.rbytes()).into_owned();
                let ops = String::from_utf8_lossy(&self.rbytes()).into_owned();
                Ev::End(Res { status, out, err, ops })
            }
            x => panic!("protocol error {x}"),
        }
    }

    pub fn run(&mut self, r: &Req) -> Res {
        self.send(r, false);
        match self.event() {
            Ev::End(e) => {
                // a run that was ended by the shim's own machinery is an error of the check
                if e.code() >= 97 && e.code() <= 99 && e.signaled().is_none() {
                    panic!("shim error: {:?}", e);
                }
                e
            }
            _ => panic!("unexpected point"),
        }
    }

    pub fn start(&mut self, r: &Req) -> Ev {
        self.send(r, true);
        self.event()
    }
    pub fn answer(&mut self, a: Act) -> Ev {
        let (k, v): (u8, i64) = match a {
            Act::Go => (0, 0),
            Act::Fail(e) => (1, e as i64),
            Act::Short(n) => (2, n as i64),
            Act::Crash => (3, 0),
            Act::Torn(n) => (4, n as i64),
            Act::CrashAfter => (5, 0),
        };
        let mut m = vec![k];
        m.extend_from_slice(&v.to_le_bytes());
        self.tx.write_all(&m).expect("server write");
        self.event()
    }

    // ------------------------------------------------------------------ scratch files
    pub fn path(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }
    pub fn put(&self, rel: &str, content: &str) {
        self.put_bytes(rel, content.as_bytes())
    }
    pub fn put_bytes(&self, rel: &str, content: &[u8]) {
        let p = self.root.join(os(rel));
        if rel.contains('/') {
            fs::create_dir_all(p.parent().unwrap()).unwrap();
        }
        fs::write(p, content).unwrap();
    }
    pub fn get(&self, rel: &str) -> String {
        String::from_utf8_lossy(&fs::read(self.root.join(os(rel))).unwrap_or_default()).into_owned()
    }
    pub fn clear(&self) {
        for e in fs::read_dir(&self.root).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() {
                fs::remove_dir_all(p).unwrap();
            } else {
                fs::remove_file(p).unwrap();
            }
        }
    }
    /// all files under the root: relative name -> bytes
    pub fn snapshot(&self) -> std::collections::BTreeMap<String, Vec<u8>> {
        let mut m = Default::default();
        fn walk(root: &Path, d: &Path, m: &mut std::collections::BTreeMap<String, Vec<u8>>) {
            for e in fs::read_dir(d).unwrap().flatten() {
                let p = e.path();
                let name = unraw(std::os::unix::ffi::OsStrExt::as_bytes(p.strip_prefix(root).unwrap().as_os_str()));
                if p.is_dir() {
                    m.insert(format!("{name}/"), vec![]);
                    walk(root, &p, m)
                } else {
                    m.insert(name, fs::read(&p).unwrap_or_default());
                }
            }
        }
        walk(&self.root, &self.root, &mut m);
        m
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
