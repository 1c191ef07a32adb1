//! Runs the printing functions of the display feature in a child process whose
//! standard output is a wide pseudo-terminal, so that nothing is wrapped.
use crate::env::*;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, Command, Stdio};

extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn ioctl(fd: i32, req: usize, ...) -> i32;
    fn setsid() -> i32;
    fn prctl(op: i32, ...) -> i32;
}
const O_RDWR: i32 = 2;
const O_NOCTTY: i32 = 0o400;
const O_CLOEXEC: i32 = 0o2000000;
const TIOCSWINSZ: usize = 0x5414;
const TIOCSCTTY: usize = 0x540E;
const PR_SET_PDEATHSIG: i32 = 1;
const COLUMNS: u16 = 2000;
const END: &str = "\x1e\x1e:end-of-output:9d3f2b71:";

pub struct Renderer {
    child: Child,
    to: ChildStdin,
    from: File,
}

impl Drop for Renderer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// A pseudo-terminal of COLUMNS columns: master and slave.
fn open() -> (File, File) {
    unsafe {
        let m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        assert!(m >= 0 && grantpt(m) == 0 && unlockpt(m) == 0, "no pseudo-terminal");
        let mut name = [0u8; 128];
        assert!(ptsname_r(m, name.as_mut_ptr(), name.len()) == 0, "ptsname");
        let n = name.iter().position(|&b| b == 0).unwrap();
        let path = std::str::from_utf8(&name[..n]).unwrap().to_string();
        let ws: [u16; 4] = [500, COLUMNS, 0, 0];
        assert!(ioctl(m, TIOCSWINSZ, ws.as_ptr()) == 0, "window size");
        let slave = std::fs::OpenOptions::new().read(true).write(true).open(&path).expect("pty slave");
        (File::from_raw_fd(m), slave)
    }
}

/// The environment every program starts with.
fn plain(c: &mut Command) {
    c.env_clear().env("TERM", "xterm").env("PATH", "/usr/bin:/bin");
}

fn on(slave: &File, c: &mut Command) {
    let sfd = slave.as_raw_fd();
    c.stdout(slave.try_clone().unwrap()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            prctl(PR_SET_PDEATHSIG, 9);
            setsid();
            ioctl(sfd, TIOCSCTTY, 0);
            Ok(())
        });
    }
}

/// Runs a program whose standard output is the terminal (or a pipe): exit
/// status (None when a signal ended it) and everything it printed.
pub fn run(program: &std::path::Path, args: &[&str], env: &[(&str, &str)], piped: bool) -> (Option<i32>, String) {
    let mut c = Command::new(program);
    plain(&mut c);
    c.args(args).envs(env.iter().copied()).stdin(Stdio::null());
    if piped {
        c.stderr(Stdio::null());
        let o = c.output().expect("cannot start the program");
        return (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned());
    }
    let (mut m, slave) = open();
    on(&slave, &mut c);
    let mut child = c.spawn().expect("cannot start the program");
    drop(c);
    drop(slave);
    let mut out = vec![];
    let mut buf = [0u8; 1 << 14];
    while let Ok(n) = m.read(&mut buf) {
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    let st = child.wait().expect("wait");
    (st.code(), String::from_utf8_lossy(&out).replace('\r', ""))
}

impl Renderer {
    pub fn start() -> Renderer {
        let (m, slave) = open();
        let mut c = Command::new(std::env::current_exe().unwrap());
        plain(&mut c);
        c.arg("renderer").stdin(Stdio::piped());
        on(&slave, &mut c);
        let mut child = c.spawn().expect("renderer");
        let to = child.stdin.take().unwrap();
        Renderer { child, to, from: m }
    }
    /// What `display::markdown` (kind 0) or `display::raw` (kind 1) prints.
    pub fn print(&mut self, kind: u8, t: &Table) -> Result<String, String> {
        let b = t.to_bytes();
        let mut msg = vec![kind];
        msg.extend((b.len() as u32).to_le_bytes());
        msg.extend(b);
        if self.to.write_all(&msg).is_err() {
            return Err("the printing process died".into());
        }
        let mut out = vec![];
        let mut buf = [0u8; 1 << 16];
        loop {
            match self.from.read(&mut buf) {
                Ok(n) if n > 0 => {
                    out.extend_from_slice(&buf[..n]);
                    let k = out.len();
                    if k > 4 && out[k - 1] == b'\n' && out[k.saturating_sub(1000)..].windows(END.len()).any(|w| w == END.as_bytes()) {
                        break;
                    }
                }
                _ => return Err("the printing process died".into()),
            }
        }
        let s = String::from_utf8_lossy(&out).replace('\r', "");
        let p = s.rfind(END).unwrap();
        let status = s[p + END.len()..].trim().to_string();
        if status != "ok" {
            return Err(format!("printing panicked: {status}"));
        }
        Ok(s[..p].to_string())
    }
}

/// The child.
pub fn serve() -> i32 {
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| *l2.lock().unwrap() = i.to_string().replace(['\n', '\u{1e}'], " ")));
    let mut inp = std::io::stdin();
    loop {
        let mut h = [0u8; 5];
        if inp.read_exact(&mut h).is_err() {
            return 0;
        }
        let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize;
        let mut b = vec![0; n];
        inp.read_exact(&mut b).expect("request");
        let t = Table::from_bytes(&b);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if h[0] == 0 {
                raw_cpuid::display::markdown(cpu(&t))
            } else {
                raw_cpuid::display::raw(Rd::new(&t))
            }
        }));
        let mut o = std::io::stdout();
        match r {
            Ok(()) => writeln!(o, "{END}ok"),
            Err(_) => writeln!(o, "\n{END}{}", last.lock().unwrap().chars().take(200).collect::<String>()),
        }
        .unwrap();
        o.flush().unwrap();
    }
}
