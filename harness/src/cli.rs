//! Running the real binary in a scratch directory.
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Scratch {
    pub dir: tempfile::TempDir,
}

impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let dir = tempfile::Builder::new()
            .prefix("texmo-verif-")
            .tempdir_in(base)
            .or_else(|_| tempfile::Builder::new().prefix("texmo-verif-").tempdir_in("/tmp"))
            .expect("scratch directory");
        for d in ["tmp", "log", "home"] {
            std::fs::create_dir(dir.path().join(d)).unwrap();
        }
        Scratch { dir }
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.dir.path().join(n)
    }
    pub fn write(&self, n: &str, data: &[u8]) -> PathBuf {
        let p = self.path(n);
        std::fs::write(&p, data).expect("scratch file");
        p
    }
    /// The same through a symbolic link, if `link`.
    pub fn write_by(&self, n: &str, data: &[u8], link: bool) -> PathBuf {
        if !link {
            return self.write(n, data);
        }
        std::fs::create_dir_all(self.path("real")).expect("scratch subdirectory");
        let real = self.path("real").join(format!("{n}.data"));
        std::fs::write(&real, data).expect("scratch file");
        let p = self.path(n);
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink(&real, &p).expect("scratch link");
        p
    }
    /// A file of `blocks` MiB that takes little room: each block consists of
    /// `text`, NUL characters and a blank line. Gives the path and the block.
    pub fn sparse(&self, n: &str, blocks: u64, text: &str) -> (PathBuf, Vec<u8>) {
        use std::os::unix::fs::FileExt;
        let p = self.path(n);
        let f = std::fs::File::create(&p).expect("scratch file");
        f.set_len(blocks << 20).expect("large scratch file");
        for i in 0..blocks {
            f.write_all_at(text.as_bytes(), i << 20).expect("scratch file");
            f.write_all_at(b"\n\n", ((i + 1) << 20) - 2).expect("scratch file");
        }
        let mut b = vec![0; 1 << 20];
        b[..text.len()].copy_from_slice(text.as_bytes());
        b[(1 << 20) - 2..].copy_from_slice(b"\n\n");
        (p, b)
    }
    pub fn mkdir(&self, n: &str) -> PathBuf {
        let p = self.path(n);
        std::fs::create_dir_all(&p).expect("scratch subdirectory");
        p
    }
}

impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Default, Clone)]
pub struct Opts {
    /// RLIMIT_FSIZE with SIGXFSZ ignored: writes beyond it fail with EFBIG.
    pub fsize: Option<u64>,
    /// RLIMIT_CPU in seconds.
    pub cpu: Option<u64>,
    pub env: Vec<(String, String)>,
    pub stdout: bool,
    /// tells apart the logs of runs at the same time
    pub tag: String,
    /// user and group to run as
    pub user: Option<u32>,
}

pub const NOBODY: u32 = 65534;

/// The program at a place where an unprivileged user can run it, if there is
/// such a user here.
pub fn for_nobody(texmo: &Path, scratch: &Scratch) -> Option<PathBuf> {
    use std::os::unix::fs::PermissionsExt;
    let runs = |p: &Path| {
        let mut c = Command::new(p);
        c.arg("--help").current_dir("/").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).uid(NOBODY).gid(NOBODY);
        c.status().is_ok_and(|s| s.success())
    };
    std::fs::set_permissions(scratch.dir.path(), std::fs::Permissions::from_mode(0o755)).ok()?;
    if runs(texmo) {
        return Some(texmo.to_path_buf());
    }
    let copy = scratch.path("texmo");
    std::fs::copy(texmo, &copy).ok()?;
    std::fs::set_permissions(&copy, std::fs::Permissions::from_mode(0o755)).ok()?;
    Some(copy).filter(|c| runs(c))
}

pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub wall: Duration,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        format!(
            "exit code {:?}, signal {:?}, stderr: {}",
            self.code,
            self.signal,
            crate::run::truncate(self.stderr.trim(), 700)
        )
    }
    /// The limit on processor time was reached.
    pub fn cpu_exceeded(&self) -> bool {
        self.signal == Some(libc::SIGXCPU)
    }
}

fn tail(path: &Path, n: u64) -> String {
    use std::io::{Read, Seek, SeekFrom};
    let Ok(mut f) = std::fs::File::open(path) else { return String::new() };
    let len = f.metadata().map(|m| m.len()).unwrap_or(0);
    let mut v = Vec::new();
    // A panic message comes before dumps made with dbg!: keep the last part.
    let _ = f.seek(SeekFrom::Start(len.saturating_sub(n)));
    let _ = f.read_to_end(&mut v);
    String::from_utf8_lossy(&v).to_string()
}

pub fn run(texmo: &Path, scratch: &Scratch, args: &[&str], opts: &Opts) -> Outcome {
    let t0 = Instant::now();
    let errp = scratch.path(&format!("log/stderr{}.txt", opts.tag));
    let outp = scratch.path(&format!("log/stdout{}.txt", opts.tag));
    let mut c = Command::new(texmo);
    c.args(args)
        .current_dir(scratch.dir.path())
        .env("TMPDIR", scratch.path("tmp"))
        .env("HOME", scratch.path("home"))
        .env_remove("XDG_CACHE_HOME")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null());
    for (k, v) in &opts.env {
        c.env(k, v);
    }
    if opts.fsize.is_some() {
        c.stderr(Stdio::null());
    } else {
        c.stderr(std::fs::File::create(&errp).expect("stderr file"));
    }
    if opts.stdout {
        c.stdout(std::fs::File::create(&outp).expect("stdout file"));
    } else {
        c.stdout(Stdio::null());
    }
    if let Some(u) = opts.user {
        c.uid(u).gid(u);
    }
    let (fsize, cpu) = (opts.fsize, opts.cpu);
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            if let Some(n) = cpu {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            Ok(())
        });
    }
    let st = c.status().expect("running texmo");
    // for want of memory, say: nothing is known about the program then
    assert_ne!(st.signal(), Some(libc::SIGKILL), "texmo was killed from outside");
    Outcome {
        code: st.code(),
        signal: st.signal(),
        stdout: if opts.stdout { std::fs::read(&outp).unwrap_or_default() } else { Vec::new() },
        stderr: tail(&errp, 3000),
        wall: t0.elapsed(),
    }
}

/// Everything in a scratch directory except the logs of runs: relative path,
/// and mode and content of a file, target of a link, or that it is a directory.
pub fn snapshot(scratch: &Scratch) -> std::collections::BTreeMap<String, Entry> {
    use std::os::unix::fs::PermissionsExt;
    let mut out = std::collections::BTreeMap::new();
    let mut todo = vec![scratch.dir.path().to_path_buf()];
    while let Some(d) = todo.pop() {
        for f in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = f.path();
            let rel = p.strip_prefix(scratch.dir.path()).unwrap().to_string_lossy().to_string();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if rel == "log" {
                continue;
            }
            let e = if m.file_type().is_symlink() {
                Entry::Link(std::fs::read_link(&p).unwrap_or_default())
            } else if m.is_dir() {
                todo.push(p.clone());
                Entry::Dir
            } else {
                Entry::File(m.permissions().mode(), std::fs::read(&p).unwrap_or_default())
            };
            out.insert(rel, e);
        }
    }
    out
}

#[derive(Clone, PartialEq, Eq)]
pub enum Entry {
    Dir,
    Link(PathBuf),
    File(u32, Vec<u8>),
}

pub type Snapshot = std::collections::BTreeMap<String, Entry>;

/// What differs between two snapshots, paths in `except` aside.
pub fn changes(before: &Snapshot, after: &Snapshot, except: &[String]) -> Vec<String> {
    let mut v = Vec::new();
    for (k, e) in after {
        if except.contains(k) {
            continue;
        }
        match before.get(k) {
            None => v.push(format!("{k} was created")),
            Some(b) if b != e => v.push(match (b, e) {
                (Entry::File(m, x), Entry::File(n, y)) if x == y => format!("mode of {k} changed from {m:o} to {n:o}"),
                _ => format!("{k} was changed"),
            }),
            _ => {}
        }
    }
    for k in before.keys() {
        if !after.contains_key(k) && !except.contains(k) {
            v.push(format!("{k} was removed"));
        }
    }
    v
}
