//! Stateless exhaustive explorer.
//!
//! A *space* is a function that makes finitely many choices through `Ch` and ends in a case.
//! The engine enumerates every sequence of choices (depth first, odometer), and runs every case
//! against the real code.  Worker processes share the leaves of the choice tree.

use std::any::Any;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Seed of the hash maps of the code under test: the standard library asks for random keys once
/// per thread, through this symbol.
pub static SEED: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.load(Ordering::SeqCst).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8 };
    }
    len as isize
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The choices of one execution
pub struct Ch {
    trace: Vec<(u32, u32)>,
    pos: usize,
    pub tier: Tier,
}
impl Ch {
    /// One of 0..n
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.trace.len() {
            self.trace.push((0, n as u32));
        }
        let (c, m) = self.trace[self.pos];
        assert_eq!(m as usize, n, "the space is not deterministic");
        self.pos += 1;
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())].clone()
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick or thorough
    pub fn qt<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// A permutation of 0..n
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !rest.is_empty() {
            let i = self.pick(rest.len());
            out.push(rest.remove(i));
        }
        out
    }
}

pub type Check = Box<dyn Fn(&mut Env) -> Result<(), String>>;
pub struct Case {
    /// canonical text of the model state this case starts from
    pub key: String,
    pub run: Check,
}
pub fn case(key: String, run: impl Fn(&mut Env) -> Result<(), String> + 'static) -> Option<Case> {
    Some(Case {
        key,
        run: Box::new(run),
    })
}
pub struct Space {
    pub name: &'static str,
    pub f: fn(&mut Ch) -> Option<Case>,
    /// only explored in the thorough tier
    pub thorough_only: bool,
}
pub fn space(name: &'static str, f: fn(&mut Ch) -> Option<Case>) -> Space {
    Space {
        name,
        f,
        thorough_only: false,
    }
}
pub fn deep(name: &'static str, f: fn(&mut Ch) -> Option<Case>) -> Space {
    Space {
        name,
        f,
        thorough_only: true,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Ok,
    /// run_app returned an error: exit status 1
    Fail,
    /// a panic: exit status 101
    Panic,
    Exit(i32),
    Signal(i32),
    Timeout,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub status: Status,
    pub stdout: String,
    pub stderr: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.status == Status::Ok
    }
    /// an orderly refusal: non-zero exit status, no crash by signal, no hang
    pub fn refused(&self) -> bool {
        matches!(self.status, Status::Fail | Status::Panic)
            || matches!(self.status, Status::Exit(n) if n != 0)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    InProcess,
    Exec,
}

pub struct Env {
    pub dir: PathBuf,
    pub run_app: fn(Vec<String>) -> Result<(), ()>,
    pub mode: Mode,
    pub seed: u64,
    pub bin: PathBuf,
    files: Vec<(String, String)>,
    log: Vec<(Vec<String>, Out)>,
    pub runs: u64,
    pub execs: u64,
    fd1: i32,
    fd2: i32,
}

fn memfd() -> i32 {
    let name = std::ffi::CString::new("out").unwrap();
    let fd = unsafe { libc::memfd_create(name.as_ptr(), 0) };
    assert!(fd >= 0);
    fd
}
fn drain(fd: i32) -> String {
    let mut buf = vec![];
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        buf.resize(len as usize, 0u8);
        let mut off = 0;
        while off < buf.len() {
            let n = libc::pread(
                fd,
                buf.as_mut_ptr().add(off) as *mut _,
                buf.len() - off,
                off as i64,
            );
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    String::from_utf8_lossy(&buf).into_owned()
}

impl Env {
    fn reset(&mut self) {
        for (name, _) in self.files.drain(..) {
            let path = self.dir.join(&name);
            let _ = fs::remove_file(&path);
            let mut up = path.parent();
            while let Some(d) = up {
                // folders of the case, once empty
                if d == self.dir || d == self.dir.join("home") || fs::remove_dir(d).is_err() {
                    break;
                }
                up = d.parent();
            }
        }
        self.log.clear();
        self.seed = 1;
    }
    /// Writes a file of the case in the scratch folder, and returns its path
    pub fn write(&mut self, name: &str, content: &str) -> String {
        let path = self.dir.join(name);
        if name.contains('/') {
            fs::create_dir_all(path.parent().unwrap()).unwrap();
        }
        fs::write(&path, content).unwrap();
        self.files.retain(|x| x.0 != name);
        self.files.push((name.to_string(), content.to_string()));
        path.to_str().unwrap().to_string()
    }
    pub fn remove(&mut self, name: &str) {
        let _ = fs::remove_file(self.dir.join(name));
        self.files.retain(|x| x.0 != name);
    }
    /// dinero ARGS; relative names in the arguments are relative to the scratch folder
    pub fn run<S: AsRef<str>>(&mut self, args: &[S]) -> Out {
        let args: Vec<String> = args.iter().map(|x| x.as_ref().to_string()).collect();
        let out = match self.mode {
            Mode::Exec => self.exec_raw(&args),
            Mode::InProcess => self.run_raw(&args),
        };
        self.log.push((args, out.clone()));
        out
    }
    /// Always in a process of its own, for what ends the process (wrong command lines)
    pub fn exec<S: AsRef<str>>(&mut self, args: &[S]) -> Out {
        let args: Vec<String> = args.iter().map(|x| x.as_ref().to_string()).collect();
        let out = self.exec_raw(&args);
        self.log.push((args, out.clone()));
        out
    }
    fn run_raw(&mut self, args: &[String]) -> Out {
        self.runs += 1;
        SEED.store(self.seed, Ordering::SeqCst);
        let mut argv = vec!["dinero".to_string()];
        argv.extend(args.iter().cloned());
        let f = self.run_app;
        let r: Result<Result<(), ()>, Box<dyn Any + Send>> = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || f(argv))
            .unwrap()
            .join();
        std::io::stdout().flush().unwrap();
        let stdout = drain(self.fd1);
        let stderr = drain(self.fd2);
        Out {
            status: match r {
                Ok(Ok(())) => Status::Ok,
                Ok(Err(())) => Status::Fail,
                Err(_) => Status::Panic,
            },
            stdout,
            stderr,
        }
    }
    fn exec_raw(&mut self, args: &[String]) -> Out {
        self.execs += 1;
        let mut child = Command::new(&self.bin)
            .args(args)
            .current_dir(&self.dir)
            .env("HOME", self.dir.join("home"))
            .env("NO_COLOR", "1")
            .env("RUST_BACKTRACE", "0")
            .env_remove("CLICOLOR_FORCE")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("cannot run the dinero program");
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let h1 = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = so.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let h2 = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = se.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let start = Instant::now();
        let status = loop {
            match child.try_wait().unwrap() {
                Some(s) => {
                    break if let Some(n) = s.signal() {
                        Status::Signal(n)
                    } else {
                        match s.code().unwrap() {
                            0 => Status::Ok,
                            1 => Status::Fail,
                            101 => Status::Panic,
                            n => Status::Exit(n),
                        }
                    }
                }
                None => {
                    if start.elapsed() > Duration::from_secs(CASE_TIMEOUT) {
                        let _ = child.kill();
                        let _ = child.wait();
                        break Status::Timeout;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        };
        Out {
            status,
            stdout: h1.join().unwrap(),
            stderr: h2.join().unwrap(),
        }
    }
    fn dump(&self, to: &Path, message: &str, prop: &str, space: &str, leaf: u64, tier: Tier) {
        let _ = fs::remove_dir_all(to);
        fs::create_dir_all(to).unwrap();
        let here = self.dir.to_str().unwrap();
        for (name, content) in &self.files {
            let p = to.join(name);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            let _ = fs::write(p, content);
        }
        let mut text = format!(
            "property {} space {} leaf {} tier {:?}\n\n{}\n",
            prop, space, leaf, tier, message
        );
        let mut sh = String::from("#!/bin/bash\n# Runs the commands of this case with the dinero program built from /repo\ncd \"$(dirname \"$0\")\" || exit 2\nD=/verif/.build/debug/dinero\n[ -x \"$D\" ] || D=/repo/target/debug/dinero\nexport HOME=$PWD/home NO_COLOR=1\n");
        for (args, out) in &self.log {
            let quoted: Vec<String> = args
                .iter()
                .map(|x| {
                    format!(
                        "'{}'",
                        x.replace(&format!("{}/", here), "").replace('\'', "'\\''")
                    )
                })
                .collect();
            sh.push_str(&format!(
                "echo {0}; $D {1}; echo \"exit status $?\"\n",
                format!("'$ dinero '{}", shell_quote(&quoted.join(" "))),
                quoted.join(" ")
            ));
            text.push_str(&format!(
                "\n$ dinero {}\n[{:?}]\n{}{}\n",
                quoted.join(" "),
                out.status,
                out.stdout,
                if out.stderr.is_empty() {
                    String::new()
                } else {
                    format!("(stderr) {}", out.stderr)
                }
            ));
        }
        let _ = fs::write(to.join("what.txt"), text);
        let _ = fs::write(to.join("replay.sh"), sh);
    }
}
fn shell_quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}

const CASE_TIMEOUT: u64 = 30;
fn max_violations() -> usize {
    std::env::var("MC_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(3)
}

pub struct Prop {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<&'static str>,
}

fn h64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Walk {
    ch: Ch,
    edges: u64,
    done: bool,
    common: usize,
}
impl Walk {
    fn new(tier: Tier) -> Self {
        Walk {
            ch: Ch {
                trace: vec![],
                pos: 0,
                tier,
            },
            edges: 0,
            done: false,
            common: 0,
        }
    }
    fn next(&mut self, f: fn(&mut Ch) -> Option<Case>) -> Option<Case> {
        self.ch.pos = 0;
        let case = f(&mut self.ch);
        assert_eq!(self.ch.pos, self.ch.trace.len(), "unused choices");
        self.edges += (self.ch.trace.len() - self.common) as u64;
        loop {
            match self.ch.trace.last() {
                None => {
                    self.done = true;
                    break;
                }
                Some((c, n)) if c + 1 == *n => {
                    self.ch.trace.pop();
                }
                Some(_) => {
                    self.common = self.ch.trace.len() - 1;
                    self.ch.trace.last_mut().unwrap().0 += 1;
                    break;
                }
            }
        }
        case
    }
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && fs::create_dir_all(shm.join("mc-probe")).is_ok() {
        let _ = fs::remove_dir(shm.join("mc-probe"));
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    };
    base
}

fn new_env(dir: PathBuf, run_app: fn(Vec<String>) -> Result<(), ()>) -> Env {
    fs::create_dir_all(dir.join("home")).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    std::env::set_var("HOME", dir.join("home"));
    std::env::set_var("NO_COLOR", "1");
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("CLICOLOR_FORCE");
    let bin = std::env::current_exe().unwrap().with_file_name("dinero");
    let (fd1, fd2) = (memfd(), memfd());
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY);
        libc::dup2(null, 0);
        libc::dup2(fd1, 1);
        libc::dup2(fd2, 2);
    }
    std::panic::set_hook(Box::new(|info| {
        eprintln!("{}", info);
    }));
    Env {
        dir,
        run_app,
        mode: Mode::InProcess,
        seed: 1,
        bin,
        files: vec![],
        log: vec![],
        runs: 0,
        execs: 0,
        fd1,
        fd2,
    }
}

/// A panic of the oracle means that it could not make sense of what the program printed
fn judge(case: &Case, env: &mut Env) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (case.run)(env))) {
        Ok(x) => x,
        Err(_) => Err(format!(
            "the output could not be understood: {}",
            drain(env.fd2)
        )),
    }
}

fn map_status(path: &Path) -> *mut u64 {
    let f = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .open(path)
        .unwrap();
    f.set_len(64).unwrap();
    use std::os::unix::io::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            64,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

struct Args {
    id: String,
    tier: Tier,
    shard: u64,
    shards: u64,
    dir: PathBuf,
    from_space: usize,
    from_leaf: u64,
    only: bool,
}

/// The loop of a worker process
fn worker(prop: &Prop, a: Args, run_app: fn(Vec<String>) -> Result<(), ()>) {
    let status = map_status(&a.dir.join(format!("status{}", a.shard)));
    let set = |i: usize, v: u64| unsafe { std::ptr::write_volatile(status.add(i), v) };
    let replay_dir = a.dir.join(format!("replay{}", a.shard));
    let mut env = new_env(a.dir.join(format!("w{}", a.shard)), run_app);
    // what grows without end must not take the sandbox with it
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let report = a.dir.join(format!("report{}", a.shard));
    let mut rep = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(report)
        .unwrap();
    let mut nviol = 0;
    let mut beat = 0u64;
    for (si, sp) in prop.spaces.iter().enumerate() {
        if sp.thorough_only && a.tier == Tier::Quick {
            continue;
        }
        if si < a.from_space || (a.only && si > a.from_space) {
            continue;
        }
        let start = if si == a.from_space { a.from_leaf } else { 0 };
        let mut walk = Walk::new(a.tier);
        let mut keys: HashSet<u64> = HashSet::new();
        let (mut leaf, mut cases, mut ran) = (0u64, 0u64, 0u64);
        let t0 = Instant::now();
        // Where the in-process runs are repeated with the real program
        let mut next_exec = a.shard;
        let mut stride = 1u64;
        while !walk.done {
            let case = walk.next(sp.f);
            let this = leaf;
            leaf += 1;
            let case = match case {
                None => continue,
                Some(c) => c,
            };
            cases += 1;
            if a.shard == 0 && !a.only {
                keys.insert(h64(&case.key));
            }
            if this < start || (a.only && this != a.from_leaf) {
                continue;
            }
            if !a.only && this % a.shards != a.shard {
                continue;
            }
            beat += 1;
            set(0, si as u64);
            set(1, this);
            set(2, beat);
            env.reset();
            env.mode = Mode::InProcess;
            let mut verdict = judge(&case, &mut env);
            ran += 1;
            if verdict.is_ok() && (this >= next_exec || a.only) {
                // the same case with the real program
                let (log, files) = (env.log.clone(), env.files.clone());
                env.reset();
                env.mode = Mode::Exec;
                verdict = judge(&case, &mut env)
                    .map_err(|e| format!("(only when run as a program) {}", e));
                env.mode = Mode::InProcess;
                if verdict.is_ok() {
                    let _ = (log, files);
                }
                stride = stride + stride / 4 + 1;
                next_exec = this + stride * a.shards;
            }
            if let Err(message) = verdict {
                nviol += 1;
                let to = replay_dir.join(format!("{}", nviol));
                env.dump(&to, &message, prop.id, sp.name, this, a.tier);
                writeln!(rep, "VIOLATION\t{}\t{}\t{}", si, this, to.display()).unwrap();
                if nviol >= max_violations() {
                    writeln!(rep, "DONE").unwrap();
                    unsafe { libc::_exit(0) }
                }
            }
            if ran == 1 && a.shard < 3 && !a.only {
                writeln!(
                    rep,
                    "SAMPLE\t{}\t{}",
                    sp.name,
                    json_str(&case.key.chars().take(600).collect::<String>())
                )
                .unwrap();
            }
        }
        writeln!(
            rep,
            "SPACE\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            si,
            leaf,
            cases,
            ran,
            walk.edges,
            keys.len(),
            t0.elapsed().as_millis()
        )
        .unwrap();
    }
    writeln!(rep, "RUNS\t{}\t{}", env.runs, env.execs).unwrap();
    writeln!(rep, "DONE").unwrap();
    unsafe { libc::_exit(0) }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn spawn(id: &str, tier: Tier, shard: u64, shards: u64, dir: &Path, sp: usize, leaf: u64, only: bool) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .arg(if only { "one" } else { "worker" })
        .arg(id)
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(shard.to_string())
        .arg(shards.to_string())
        .arg(dir)
        .arg(sp.to_string())
        .arg(leaf.to_string())
        .stdin(Stdio::null())
        .spawn()
        .unwrap()
}

fn peek(p: *mut u64, i: usize) -> u64 {
    unsafe { std::ptr::read_volatile(p.add(i)) }
}

pub fn main(props: Vec<Prop>, run_app: fn(Vec<String>) -> Result<(), ()>) {
    let argv: Vec<String> = std::env::args().collect();
    if argv.len() < 4 {
        eprintln!("usage: mc run|worker|one|list PROPERTY TIER ...");
        std::process::exit(2);
    }
    let tier = match argv[3].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => std::process::exit(2),
    };
    let prop = match props.iter().find(|p| p.id == argv[2]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", argv[2]);
            std::process::exit(2)
        }
    };
    match argv[1].as_str() {
        "worker" | "one" => worker(
            prop,
            Args {
                id: argv[2].clone(),
                tier,
                shard: argv[4].parse().unwrap(),
                shards: argv[5].parse().unwrap(),
                dir: PathBuf::from(&argv[6]),
                from_space: argv[7].parse().unwrap(),
                from_leaf: argv[8].parse().unwrap(),
                only: argv[1] == "one",
            },
            run_app,
        ),
        "list" => {
            // sizes of the spaces, without running anything
            for s in &prop.spaces {
                if s.thorough_only && tier == Tier::Quick {
                    continue;
                }
                let mut w = Walk::new(tier);
                let (mut n, mut k) = (0, 0);
                let only = argv.get(4);
                while !w.done {
                    let c = w.next(s.f);
                    n += 1;
                    if let Some(c) = c {
                        k += 1;
                        if only.map_or(false, |o| o == s.name) {
                            println!("--- {}\n{}", n - 1, c.key);
                        }
                    }
                }
                println!("{} {}: leaves {} cases {} edges {}", prop.id, s.name, n, k, w.edges);
            }
        }
        "run" => {
            let code = coordinate(prop, tier);
            std::process::exit(code);
        }
        _ => std::process::exit(2),
    }
}

fn coordinate(prop: &Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_string()));
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let base = scratch_base().join(format!("mc-{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&base);
    fs::create_dir_all(&base).unwrap();
    let n = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|x| x.get() as u64)
                .unwrap_or(4)
        });
    struct W {
        child: Option<Child>,
        status: *mut u64,
        beat: u64,
        since: Instant,
    }
    let mut ws: Vec<W> = (0..n)
        .map(|i| {
            let status = map_status(&base.join(format!("status{}", i)));
            W {
                child: Some(spawn(prop.id, tier, i, n, &base, 0, 0, false)),
                status,
                beat: 0,
                since: Instant::now(),
            }
        })
        .collect();
    // (space, leaf) where a worker ended or got stuck
    let mut bad: Vec<(usize, u64, String)> = vec![];
    let mut broken = false;
    loop {
        let mut alive = false;
        for i in 0..ws.len() {
            let w = &mut ws[i];
            let mut ended: Option<String> = None;
            if let Some(child) = &mut w.child {
                match child.try_wait().unwrap() {
                    Some(s) => {
                        let done = fs::read_to_string(base.join(format!("report{}", i)))
                            .unwrap_or_default()
                            .ends_with("DONE\n");
                        if s.code() == Some(77) {
                            broken = true;
                            w.child = None;
                            continue;
                        }
                        if !done {
                            ended = Some(format!("the process ended: {}", s));
                        } else {
                            w.child = None;
                            continue;
                        }
                    }
                    None => {
                        alive = true;
                        let b = peek(w.status, 2);
                        if b != w.beat {
                            w.beat = b;
                            w.since = Instant::now();
                        } else if b > 0 && w.since.elapsed() > Duration::from_secs(CASE_TIMEOUT) {
                            let _ = child.kill();
                            let _ = child.wait();
                            ended = Some(format!("no end after {} s", CASE_TIMEOUT));
                        }
                    }
                }
            }
            if let Some(why) = ended {
                let (si, leaf, b) = (
                    peek(w.status, 0) as usize,
                    peek(w.status, 1),
                    peek(w.status, 2),
                );
                if b == 0 {
                    broken = true;
                    w.child = None;
                    continue;
                }
                bad.push((si, leaf, why));
                if bad.len() >= max_violations() {
                    for x in ws.iter_mut() {
                        if let Some(c) = &mut x.child {
                            let _ = c.kill();
                            let _ = c.wait();
                        }
                        x.child = None;
                    }
                    break;
                }
                w.child = Some(spawn(prop.id, tier, i as u64, n, &base, si, leaf + 1, false));
                w.since = Instant::now();
                alive = true;
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if broken {
        eprintln!("the machinery failed, see /tmp/mc-machinery-error.txt");
        eprintln!(
            "{}",
            fs::read_to_string("/tmp/mc-machinery-error.txt").unwrap_or_default()
        );
        let _ = fs::remove_dir_all(&base);
        return 2;
    }
    // Collect
    let mut violations: Vec<(usize, u64, PathBuf)> = vec![];
    let mut spaces: Vec<(u64, u64, u64, u64, u64, u64)> = vec![(0, 0, 0, 0, 0, 0); prop.spaces.len()];
    let mut samples: Vec<String> = vec![];
    let (mut runs, mut execs) = (0u64, 0u64);
    for i in 0..n {
        let text = fs::read_to_string(base.join(format!("report{}", i))).unwrap_or_default();
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "VIOLATION" => violations.push((
                    f[1].parse().unwrap(),
                    f[2].parse().unwrap(),
                    PathBuf::from(f[3]),
                )),
                "SPACE" => {
                    let k: usize = f[1].parse().unwrap();
                    let p = |j: usize| f[j].parse::<u64>().unwrap();
                    let s = &mut spaces[k];
                    s.0 = s.0.max(p(2));
                    s.1 = s.1.max(p(3));
                    s.2 += p(4);
                    s.3 = s.3.max(p(5));
                    s.4 = s.4.max(p(6));
                    s.5 = s.5.max(p(7));
                }
                "SAMPLE" => samples.push(format!(
                    "{{\"space\":{},\"case\":{}}}",
                    json_str(f[1]),
                    f[2]
                )),
                "RUNS" => {
                    runs += f[1].parse::<u64>().unwrap();
                    execs += f[2].parse::<u64>().unwrap();
                }
                _ => {}
            }
        }
    }
    // Confirm, in a fresh process each, and keep the artefacts
    let keep = verif.join("replays");
    let _ = fs::create_dir_all(&keep);
    let mut confirmed: Vec<PathBuf> = vec![];
    let mut known = 0;
    let mut todo: Vec<(usize, u64, Option<String>)> = bad
        .iter()
        .map(|(s, l, w)| (*s, *l, Some(w.clone())))
        .collect();
    violations.sort();
    for (s, l, _) in violations.iter() {
        todo.push((*s, *l, None));
    }
    todo.truncate(max_violations() + 1);
    let mut unconfirmed = 0;
    for (k, (si, leaf, why)) in todo.iter().enumerate() {
        let dir = base.join(format!("confirm{}", k));
        fs::create_dir_all(&dir).unwrap();
        let mut child = spawn(prop.id, tier, 0, 1, &dir, *si, *leaf, true);
        let t = Instant::now();
        let st = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed() > Duration::from_secs(CASE_TIMEOUT * 2) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let text = fs::read_to_string(dir.join("report0")).unwrap_or_default();
        let to = keep.join(format!("{}-{}", prop.id, k + 1));
        if text.contains("VIOLATION\t") {
            let _ = fs::remove_dir_all(&to);
            copy_dir(&dir.join("replay0/1"), &to);
            confirmed.push(to);
        } else if !text.ends_with("DONE\n") {
            // crashed or stuck again: keep whatever files the case had written
            let _ = fs::remove_dir_all(&to);
            copy_dir(&dir.join("w0"), &to);
            let what = format!(
                "property {} space {} leaf {}\n\nThe program did not come back from this case: {}\nagain in a fresh process: {}\n",
                prop.id,
                prop.spaces[*si].name,
                leaf,
                why.clone().unwrap_or_default(),
                match st {
                    Some(s) => s.to_string(),
                    None => "no end".to_string(),
                }
            );
            let _ = fs::write(to.join("what.txt"), what);
            confirmed.push(to);
        } else {
            unconfirmed += 1;
            eprintln!(
                "not reproduced: space {} leaf {} {}",
                prop.spaces[*si].name,
                leaf,
                why.clone().unwrap_or_default()
            );
            for (s, l, path) in &violations {
                if (s, l) == (si, leaf) {
                    eprintln!(
                        "{}",
                        fs::read_to_string(path.join("what.txt")).unwrap_or_default()
                    );
                }
            }
        }
    }
    let _ = &mut known;
    let mut clean_exit = 0;
    for path in &confirmed {
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        if let Ok(t) = fs::read_to_string(path.join("what.txt")) {
            for l in t.lines().take(30) {
                println!("    {}", l);
            }
        }
        clean_exit = 1;
    }
    if clean_exit == 0 && unconfirmed > 0 {
        eprintln!("{} alarms could not be reproduced", unconfirmed);
        clean_exit = 2;
    }
    // Evidence
    let active: Vec<usize> = (0..prop.spaces.len())
        .filter(|i| tier == Tier::Thorough || !prop.spaces[*i].thorough_only)
        .collect();
    let complete = clean_exit == 0 && active.iter().all(|i| spaces[*i].1 == spaces[*i].2);
    let sum = |g: fn(&(u64, u64, u64, u64, u64, u64)) -> u64| -> u64 { spaces.iter().map(g).sum() };
    let per: Vec<String> = active
        .iter()
        .map(|i| {
            let s = &spaces[*i];
            format!(
                "{{\"space\":{},\"choice_sequences\":{},\"cases\":{},\"explored\":{},\"transitions\":{},\"distinct_states\":{},\"ms\":{}}}",
                json_str(prop.spaces[*i].name), s.0, s.1, s.2, s.3, s.4, s.5
            )
        })
        .collect();
    samples.truncate(12);
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"runs_in_process\": {},\n  \"runs_of_the_real_program\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        prop.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        sum(|s| s.4),
        sum(|s| s.3),
        sum(|s| s.2),
        runs,
        execs,
        complete,
        json_str("Every sequence of choices of every space is enumerated; states are the distinct model states (journal, files and commands) reached, transitions the edges of the choice tree, and every case is run on the real code and compared with the reference model; a geometric subset is repeated with the real program in its own process."),
        per.join(",\n   "),
        samples.join(",\n   "),
        prop.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        confirmed.len()
    );
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join("evidence").join(format!("{}.json", prop.id)), ev).unwrap();
    let _ = fs::remove_dir_all(&base);
    println!(
        "{} {:?}: {} cases, {} states, {} transitions, {} in-process runs, {} program runs, {:.1} s{}",
        prop.id,
        tier,
        sum(|s| s.2),
        sum(|s| s.4),
        sum(|s| s.3),
        runs,
        execs,
        t0.elapsed().as_secs_f64(),
        if complete { ", exhaustive" } else { "" }
    );
    if clean_exit == 0 && !complete {
        eprintln!("the exploration did not complete");
        return 2;
    }
    clean_exit
}

fn copy_dir(from: &Path, to: &Path) {
    let _ = fs::create_dir_all(to);
    if let Ok(rd) = fs::read_dir(from) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                copy_dir(&p, &to.join(e.file_name()));
            } else {
                let _ = fs::copy(&p, to.join(e.file_name()));
            }
        }
    }
}
