//! C30: the real node program and the real client in a scratch directory, as an unprivileged user, over all histories
//! of a small alphabet of lives.
use mcx::{serde_json::json, Ctx};
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpListener};
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;
/// Long enough for any machine; nothing waits for it unless something is wrong.
const PATIENCE: Duration = Duration::from_secs(60);

/// What lies in the directory before the first life.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Before {
    Nothing,
    /// a socket nobody listens at
    Stale,
    /// a file with the socket's name
    File,
    /// a link to nowhere
    Link,
    /// the directory's name has a space and letters beyond ASCII
    Named,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Life {
    /// interrupted when it is ready
    Stop,
    Kill,
    Term,
    /// killed this many milliseconds after its start
    Early(u64),
    /// killed while a client is half through its command
    Torn,
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum Act {
    /// the real client asks to connect to this destination
    Client(u8),
    /// the same bytes in two pieces
    Pieces(u8, usize),
    Cut(u8, usize),
    Stall(usize),
    Held(u8),
    Junk(&'static [u8]),
    Text(&'static str),
    /// a second program on the same directory and port
    Second,
}
use Act::*;

struct History {
    before: Before,
    lives: Vec<(Life, Vec<Act>)>,
}
impl History {
    fn name(&self) -> String {
        let l: Vec<String> = self
            .lives
            .iter()
            .map(|(l, a)| if a.is_empty() { format!("{:?}", l) } else { format!("{}-{:?}", a.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join("-"), l) })
            .collect();
        format!("{:?}: {}", self.before, l.join(", "))
    }
}

struct Bins {
    node: PathBuf,
    client: PathBuf,
    root: PathBuf,
}

struct Proc(Child);
impl Proc {
    fn signal(&self, s: i32) {
        unsafe { libc::kill(self.0.id() as i32, s) };
    }
    fn wait(&mut self, limit: Duration) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.0.try_wait() {
                return Some(s);
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn start(b: &Bins, dir: &Path, port: u16, log: &Path) -> Proc {
    let out = std::fs::OpenOptions::new().create(true).append(true).open(log).expect("log");
    let err = out.try_clone().unwrap();
    let c = Command::new(&b.node)
        .arg("--path")
        .arg(dir)
        .arg("--port")
        .arg(port.to_string())
        .current_dir(&b.root)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err)
        .uid(NOBODY)
        .gid(NOBODY)
        .spawn()
        .expect("node program");
    Proc(c)
}

fn identities(text: &str) -> Vec<String> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '+' || c == '/' || c == '='))
        .filter(|t| t.len() == 44 && base64::decode(t).map_or(false, |b| b.len() == 33))
        .map(|t| t.to_string())
        .collect()
}
fn read(p: &Path) -> String {
    String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned()
}
/// Is something listening at this port on all addresses?
fn listens(port: u16) -> Option<bool> {
    let mut any = false;
    for f in ["/proc/net/tcp", "/proc/net/tcp6"] {
        for l in std::fs::read_to_string(f).ok()?.lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            let (a, p) = w[1].rsplit_once(':')?;
            if w[3] == "0A" && u16::from_str_radix(p, 16).ok()? == port {
                any |= a.chars().all(|c| c == '0');
            }
        }
    }
    Some(any)
}

/// Where the node is told to connect to: which of our addresses it reached, in order.
struct Target {
    l: TcpListener,
    port: u16,
    got: Vec<u8>,
}
impl Target {
    fn new() -> Target {
        let l = TcpListener::bind("0.0.0.0:0").expect("listener");
        l.set_nonblocking(true).unwrap();
        let port = l.local_addr().unwrap().port();
        Target { l, port, got: vec![] }
    }
    fn take(&mut self) {
        loop {
            match self.l.accept() {
                Ok((s, _)) => {
                    if let Ok(SocketAddr::V4(a)) = s.local_addr() {
                        self.got.push(a.ip().octets()[3]);
                    }
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => return,
                Err(_) => return,
            }
        }
    }
}

fn peer() -> String {
    let mut b = [7u8; 33];
    b[0] = 0;
    base64::encode(b)
}
fn client(b: &Bins, dir: &Path, args: &[&str]) -> Result<(), String> {
    let out = Command::new(&b.client)
        .arg("--path")
        .arg(dir)
        .args(args)
        .current_dir(&b.root)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .uid(NOBODY)
        .gid(NOBODY)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the client could not deliver {:?}: {}", args, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(())
}
/// The bytes the client sends for a connection to this destination.
fn bytes(b: &Bins, dest: u8, port: u16) -> Result<Vec<u8>, String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let dir = b.root.join(format!("wire{}", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
    let sock = dir.join("ctrl.sock");
    let l = std::os::unix::net::UnixListener::bind(&sock).map_err(|e| e.to_string())?;
    chown(&sock, Some(NOBODY), Some(NOBODY)).map_err(|e| e.to_string())?;
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        if let Ok((mut s, _)) = l.accept() {
            let _ = s.read_to_end(&mut v);
        }
        v
    });
    let r = client(b, &dir, &["connect", &peer(), &format!("127.0.0.{}:{}", dest, port)]);
    if r.is_err() {
        let _ = UnixStream::connect(&sock);
    }
    let v = h.join().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    r.map(|_| v)
}

fn play(ctx: &Ctx, b: &Bins, h: &History, n: usize) -> Result<String, String> {
    let base = b.root.join(format!("h{}", n));
    let dir = base.join(if h.before == Before::Named { "a data directory \u{e9}\u{4e16}" } else { "d" });
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    for d in [&base, &dir] {
        chown(d, Some(NOBODY), Some(NOBODY)).map_err(|e| e.to_string())?;
    }
    let sock = dir.join("ctrl.sock");
    match h.before {
        Before::Stale => drop(std::os::unix::net::UnixListener::bind(&sock).map_err(|e| e.to_string())?),
        Before::File => std::fs::write(&sock, "something").map_err(|e| e.to_string())?,
        Before::Link => std::os::unix::fs::symlink("nowhere", &sock).map_err(|e| e.to_string())?,
        _ => (),
    }
    let mut shown: Option<String> = None;
    let mut done = 0;
    for (k, (life, acts)) in h.lives.iter().enumerate() {
        let what = format!("life {}", k + 1);
        let log = base.join(format!("log{}", k));
        let mut p;
        let mut port;
        let mut tries = 0;
        loop {
            // a port nobody uses now
            port = TcpListener::bind("0.0.0.0:0").and_then(|l| l.local_addr()).map_err(|e| e.to_string())?.port();
            let t = Instant::now();
            p = start(b, &dir, port, &log);
            if let Life::Early(ms) = life {
                std::thread::sleep(Duration::from_millis(*ms));
                break;
            }
            let mut ended = None;
            loop {
                if identities(&read(&log)).len() > 0 && UnixStream::connect(&sock).is_ok() {
                    break;
                }
                if let Ok(Some(s)) = p.0.try_wait() {
                    ended = Some(s);
                    break;
                }
                if t.elapsed() > PATIENCE {
                    return Err(format!("{}: the program does not get ready: {}", what, read(&log)));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            match ended {
                None => break,
                Some(s) => {
                    let text = read(&log);
                    tries += 1;
                    if tries < 20 && (text.contains("in use") || text.contains("AddrInUse")) && listens(port) == Some(true) {
                        // somebody took the port
                        continue;
                    }
                    return Err(format!("{}: the program ended ({}) before it could be used: {}", what, s, text));
                }
            }
        }
        ctx.steps(1);
        if let Life::Early(_) = life {
            p.signal(libc::SIGKILL);
            p.wait(PATIENCE);
        } else {
            if listens(port) == Some(false) {
                // it may be about to
                let t = Instant::now();
                while listens(port) == Some(false) {
                    if t.elapsed() > Duration::from_secs(20) {
                        return Err(format!("{}: nobody listens at port {} on all addresses", what, port));
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            let mut target = Target::new();
            let mut want: Vec<u8> = vec![];
            let mut keep = vec![];
            let connect = || {
                let s = UnixStream::connect(&sock).map_err(|e| format!("{}: the control socket does not answer: {}", what, e))?;
                s.set_write_timeout(Some(PATIENCE)).unwrap();
                Ok::<_, String>(s)
            };
            for a in acts {
                ctx.steps(1);
                match a {
                    Client(d) => {
                        client(b, &dir, &["connect", &peer(), &format!("127.0.0.{}:{}", d, target.port)])?;
                        want.push(*d);
                    }
                    Text(t) => client(b, &dir, &["send-text", &peer(), t])?,
                    Pieces(d, at) => {
                        let v = bytes(b, *d, target.port)?;
                        let mut s = connect()?;
                        let at = (*at).min(v.len());
                        let _ = s.write_all(&v[..at]);
                        std::thread::sleep(Duration::from_millis(20));
                        let _ = s.write_all(&v[at..]);
                        want.push(*d);
                    }
                    Held(d) => {
                        let v = bytes(b, *d, target.port)?;
                        let mut s = connect()?;
                        let _ = s.write_all(&v);
                        keep.push(s);
                        want.push(*d);
                    }
                    Cut(d, at) => {
                        let v = bytes(b, *d, target.port)?;
                        let _ = connect()?.write_all(&v[..(*at).min(v.len() - 1)]);
                    }
                    Stall(at) => {
                        let v = bytes(b, 9, target.port)?;
                        let mut s = connect()?;
                        let _ = s.write_all(&v[..(*at).min(v.len() - 1)]);
                        keep.push(s);
                    }
                    Junk(j) => {
                        let _ = connect()?.write_all(j);
                    }
                    Second => {
                        let other = base.join(format!("other{}", k));
                        let mut q = start(b, &dir, port, &other);
                        if q.wait(PATIENCE).is_none() {
                            return Err(format!("{}: a second program on the same directory keeps running: {}", what, read(&other)));
                        }
                        if identities(&read(&other)).iter().any(|i| Some(i) != identities(&read(&log)).first()) {
                            return Err(format!("{}: a second program on the same directory shows another identity", what));
                        }
                    }
                }
            }
            let t = Instant::now();
            loop {
                target.take();
                if target.got.len() >= want.len() || t.elapsed() > PATIENCE {
                    break;
                }
                if let Ok(Some(s)) = p.0.try_wait() {
                    return Err(format!("{}: the program ended ({}) although nobody asked for it: {}", what, s, read(&log)));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            if let Life::Torn = life {
                let v = bytes(b, 8, target.port)?;
                let mut s = connect()?;
                let _ = s.write_all(&v[..v.len() / 2]);
                std::thread::sleep(Duration::from_millis(30));
                keep.push(s);
            }
            match life {
                Life::Stop => {
                    p.signal(libc::SIGINT);
                    match p.wait(PATIENCE) {
                        None => return Err(format!("{}: interrupted, the program does not end", what)),
                        Some(s) if !s.success() => return Err(format!("{}: interrupted, the program ended with {}: {}", what, s, read(&log))),
                        Some(_) => (),
                    }
                }
                Life::Term => {
                    p.signal(libc::SIGTERM);
                    if p.wait(PATIENCE).is_none() {
                        return Err(format!("{}: terminated, the program does not end", what));
                    }
                }
                _ => {
                    p.signal(libc::SIGKILL);
                    p.wait(PATIENCE);
                }
            }
            target.take();
            if target.got != want {
                return Err(format!("{}: told to connect to {:?}, connected to {:?}: {}", what, want, target.got, read(&log)));
            }
            done += want.len();
            drop(keep);
        }
        for i in identities(&read(&log)) {
            if shown.get_or_insert_with(|| i.clone()) != &i {
                return Err(format!("{}: the identity was {}, now it is {}", what, shown.unwrap(), i));
            }
        }
        ctx.state(&(h.name(), k));
    }
    let _ = std::fs::remove_dir_all(&base);
    ctx.trace();
    let ends: BTreeMap<String, usize> = h.lives.iter().fold(BTreeMap::new(), |mut m, l| {
        *m.entry(format!("{:?}", l.0).split('(').next().unwrap().to_string()).or_default() += 1;
        m
    });
    Ok(format!("{:?}, {} connected", ends, done))
}

fn words<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|w: Vec<T>| alphabet.iter().map(move |o| w.iter().cloned().chain([o.clone()]).collect())).collect();
    }
    v
}

fn c30(ctx: &Ctx, b: &Bins) {
    ctx.assume("the moments at which the real program is killed are coarse; C23 enumerates them in the model");
    let mut hs: Vec<History> = vec![];
    let last = (Life::Stop, vec![Client(2), Client(3)]);
    let lives = [Life::Stop, Life::Kill, Life::Term, Life::Torn, Life::Early(0), Life::Early(4), Life::Early(15), Life::Early(40)];
    let befores = [Before::Nothing, Before::Stale, Before::File, Before::Link, Before::Named];
    for before in befores {
        for n in 0..=1 {
            for w in words(&lives, n) {
                let mut v: Vec<(Life, Vec<Act>)> = w.into_iter().map(|l| (l, vec![Client(4)])).collect();
                v.push(last.clone());
                hs.push(History { before, lives: v });
            }
        }
    }
    for w in words(&lives[..ctx.tier(6, 8)], ctx.tier(2, 3)) {
        let mut v: Vec<(Life, Vec<Act>)> = w.into_iter().map(|l| (l, vec![])).collect();
        v.push(last.clone());
        hs.push(History { before: Before::Nothing, lives: v });
    }
    let acts = [
        Client(2), Pieces(3, 1), Pieces(3, 37), Cut(4, 0), Cut(4, 20), Stall(0), Stall(30), Held(5), Junk(&[9, 0, 0, 0, 9, 9]), Junk(&[0xFF; 200]), Text("some text"), Text(""), Second,
    ];
    for n in 1..=ctx.tier(2, 3) {
        for w in words(&acts, n) {
            let mut w = w;
            w.push(Client(6));
            hs.push(History { before: Before::Nothing, lives: vec![(Life::Stop, w)] });
        }
    }
    // one after the other, more than fit in any queue
    let many: Vec<Act> = (0..ctx.tier(40, 400)).map(|i| if i % 5 == 4 { Cut(7, 10) } else { Client(2 + i as u8 % 5) }).collect();
    hs.push(History { before: Before::Nothing, lives: vec![(Life::Stop, many)] });
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..ctx.tier(48, 48) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= hs.len() || ctx.stopped() {
                    return;
                }
                ctx.case(&hs[i].name(), || play(ctx, b, &hs[i], i).map(|o| ctx.outcome(&o)));
            });
        }
    });
    ctx.note("histories", json!({"all": hs.len(), "complete": !ctx.stopped()}));
    ctx.note("exhaustive", json!(!ctx.stopped()));
}

fn main() {
    let ctx = Ctx::from_args();
    let root = std::env::temp_dir().join(format!("vru-mc-real-{}", std::process::id()));
    std::fs::create_dir_all(&root).expect("scratch directory");
    std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).unwrap();
    let from = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("target/real-repo/debug");
    let b = Bins { node: root.join("vru-node"), client: root.join("vru-udp"), root: root.clone() };
    for (f, t) in [("vru-node", &b.node), ("vru-udp", &b.client)] {
        std::fs::copy(from.join(f), t).expect("program");
        std::fs::set_permissions(t, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    match ctx.id.as_str() {
        "C30" => c30(&ctx, &b),
        i => panic!("no check for {}", i),
    }
    let _ = std::fs::remove_dir_all(&root);
    std::process::exit(ctx.finish());
}
