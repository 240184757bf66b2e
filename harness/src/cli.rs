//! Runs the command-line tool as a process, with a terminal of its own if asked to, and under the
//! recording library (shim/shim.c) if asked to.

use crate::fw::Fail;
use std::ffi::OsString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Debug)]
pub struct Shim {
    pub fail_at: Option<u64>,
    pub fail_from: Option<u64>,
    pub kill_at: Option<u64>,
    pub rfail_at: Option<u64>,
    pub errno: i32,
    pub short: usize,
    /// from which one on no thread can be started
    pub threads: Option<u64>,
}

/// One recorded change. `t`: O opened, C created, W written, T cut, U unlinked, D directory
/// removed, N renamed, M directory made, F synced, K killed here, X made to fail.
#[derive(Debug, Clone)]
pub struct Rec {
    pub t: u8,
    pub id: u64,
    pub off: u64,
    pub path: PathBuf,
    pub data: Vec<u8>,
}

pub struct Cmd {
    pub args: Vec<OsString>,
    /// the directory of the case: `w` (working directory), `tmp`, `log`
    pub world: PathBuf,
    pub env_key: Option<Vec<u8>>,
    pub stdin: Vec<u8>,
    /// lines typed at password prompts; None: no terminal
    pub tty: Option<Vec<String>>,
    pub shim: Option<Shim>,
    /// most files the process may have open
    pub nofile: Option<u64>,
    /// the limit that a shell sets, which may be raised
    pub soft_nofile: Option<u64>,
    /// longest file it may write
    pub fsize: Option<u64>,
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub log: Vec<Rec>,
    pub prompts: usize,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn brief(&self) -> String {
        let e: String = self.stderr.chars().take(300).collect();
        let o: String = self.stdout.chars().take(300).collect();
        format!("exit {:?} signal {:?}\n    out: {o:?}\n    err: {e:?}", self.code, self.signal)
    }
}

pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var("VH_BIN").expect("VH_BIN")).join("volaris")
}

struct Pty {
    master: File,
    slave: File,
}
fn pty() -> Result<Pty, Fail> {
    let (mut m, mut s) = (0, 0);
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) };
    if r != 0 {
        return Err(Fail::error(format!("no terminal: {}", std::io::Error::last_os_error())));
    }
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        Ok(Pty { master: File::from_raw_fd(m), slave: File::from_raw_fd(s) })
    }
}

impl Cmd {
    pub fn new(world: &Path, args: &[&str]) -> Self {
        Cmd {
            args: args.iter().map(OsString::from).collect(),
            world: world.to_path_buf(),
            env_key: None,
            stdin: vec![],
            tty: None,
            shim: None,
            nofile: None,
            soft_nofile: None,
            fsize: None,
        }
    }

    pub fn run(&self) -> Result<Out, Fail> {
        let mut c = Command::new(binary());
        c.args(&self.args).current_dir(self.world.join("w")).env_clear();
        c.env("TMPDIR", self.world.join("tmp")).env("HOME", &self.world).env("PATH", "/usr/bin:/bin");
        if let Some(k) = &self.env_key {
            c.env("VOLARIS_KEY", OsString::from_vec(k.clone()));
        }
        let log = self.world.join("log");
        if let Some(s) = &self.shim {
            std::fs::remove_file(&log).ok();
            c.env("LD_PRELOAD", Path::new(&std::env::var("VH_BIN").unwrap()).join("shim.so"));
            c.env("VSHIM_ROOT", &self.world).env("VSHIM_LOG", &log);
            for (k, v) in [("FAIL_AT", s.fail_at), ("FAIL_FROM", s.fail_from), ("KILL_AT", s.kill_at), ("RFAIL_AT", s.rfail_at), ("THREADS", s.threads)] {
                if let Some(v) = v {
                    c.env(format!("VSHIM_{k}"), v.to_string());
                }
            }
            c.env("VSHIM_ERRNO", s.errno.to_string()).env("VSHIM_SHORT", s.short.to_string());
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let pty = match self.tty {
            Some(_) => Some(pty()?),
            None => None,
        };
        let slave = pty.as_ref().map(|p| p.slave.as_raw_fd());
        let (nofile, fsize) = (self.nofile, self.fsize);
        let soft = self.soft_nofile;
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                for (what, n) in [(libc::RLIMIT_NOFILE, nofile), (libc::RLIMIT_FSIZE, fsize)] {
                    if let Some(n) = n {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(what, &l);
                        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    }
                }
                if let Some(n) = soft {
                    let mut l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
                    l.rlim_cur = n.min(l.rlim_max);
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                let l = libc::rlimit { rlim_cur: 60, rlim_max: 70 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                if let Some(s) = slave {
                    // stays open in the child, so that the terminal lives until it ends
                    libc::fcntl(s, libc::F_SETFD, 0);
                    if libc::ioctl(s, libc::TIOCSCTTY, 0) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| Fail::error(format!("cannot start the tool: {e}")))?;
        drop(c);
        let (mut i, mut o, mut e) = (child.stdin.take().unwrap(), child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let mut prompts = 0;
        let (mut so, mut se) = (vec![], vec![]);
        let mut late = false;
        let status = std::thread::scope(|sc| {
            let input = self.stdin.clone();
            sc.spawn(move || {
                i.write_all(&input).ok();
            });
            sc.spawn(|| o.read_to_end(&mut so).ok());
            sc.spawn(|| e.read_to_end(&mut se).ok());
            if let (Some(p), Some(lines)) = (pty, &self.tty) {
                drop(p.slave);
                let prompts = &mut prompts;
                sc.spawn(move || type_at(p.master, lines, prompts));
            }
            let t0 = Instant::now();
            let mut nap = Duration::from_micros(200);
            loop {
                match child.try_wait() {
                    Ok(Some(s)) => break Ok(s),
                    Ok(None) => {}
                    Err(e) => break Err(Fail::error(e.to_string())),
                }
                if t0.elapsed() > Duration::from_secs(150) && !late {
                    late = true;
                    child.kill().ok();
                }
                std::thread::sleep(nap);
                nap = (nap * 5 / 4).min(Duration::from_millis(10));
            }
        })?;
        if late {
            return Err(Fail::error(format!("the tool did not end within 150 s: {:?}", self.args)));
        }
        if status.signal() == Some(libc::SIGXCPU) {
            return Err(format!("the tool did not end within 60 s of processor time: {:?}", self.args).into());
        }
        let log = if self.shim.is_some() { parse(&std::fs::read(&log).unwrap_or_default()) } else { vec![] };
        Ok(Out {
            code: status.code(),
            signal: status.signal(),
            stdout: String::from_utf8_lossy(&so).into_owned(),
            stderr: String::from_utf8_lossy(&se).into_owned(),
            log,
            prompts,
        })
    }
}

/// Types one line at each password prompt; then hangs up.
fn type_at(mut m: File, lines: &[String], prompts: &mut usize) {
    let mut seen = vec![];
    let mut buf = [0u8; 4096];
    let mut from = 0;
    loop {
        match m.read(&mut buf) {
            Ok(0) | Err(_) => return,
            Ok(n) => seen.extend_from_slice(&buf[..n]),
        }
        while let Some(p) = find(&seen[from..], b"assword: ") {
            from += p + 9;
            if let Some(l) = lines.get(*prompts) {
                m.write_all(format!("{l}\n").as_bytes()).ok();
            } else {
                m.write_all(&[4]).ok();
            }
            *prompts += 1;
            if *prompts > lines.len() + 20 {
                return;
            }
        }
    }
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() {
        return None;
    }
    hay.windows(needle.len()).position(|w| w == needle)
}

fn parse(b: &[u8]) -> Vec<Rec> {
    let mut v = vec![];
    let mut p = 0;
    while p + 25 <= b.len() {
        let u = |a: usize, n: usize| {
            let mut x = [0u8; 8];
            x[..n].copy_from_slice(&b[p + a..p + a + n]);
            u64::from_le_bytes(x)
        };
        let (pl, dl) = (u(17, 4) as usize, u(21, 4) as usize);
        if p + 25 + pl + dl > b.len() {
            break;
        }
        v.push(Rec {
            t: b[p],
            id: u(1, 8),
            off: u(9, 8),
            path: PathBuf::from(OsString::from_vec(b[p + 25..p + 25 + pl].to_vec())),
            data: b[p + 25 + pl..p + 25 + pl + dl].to_vec(),
        });
        p += 25 + pl + dl;
    }
    v
}
