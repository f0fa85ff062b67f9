//! C26: the real command-line client against a real socket, its bytes decoded by the node program.
use crate::prog::{feed, Wire};
use mcx::Ctx;
use std::ffi::OsString;
use std::io::Read;
use std::net::SocketAddr;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::UnixListener;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Duration;
use vru_tcp_recorder::Recorded;

fn binary() -> PathBuf {
    std::fs::read_link("/proc/self/exe").expect("own path").with_file_name("vru-client")
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("vru-mc-{}-{}", name, std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    connections: usize,
    bytes: Vec<u8>,
    stderr: String,
}

/// Runs the client with these arguments after `--path DIR`.
fn run_client(dir: &Path, args: &[OsString]) -> Ran {
    run_client_with(dir, &[OsString::from("--path"), dir.as_os_str().to_os_string()], args, None)
}
/// The same with the words that name the directory given, and a working directory.
fn run_client_with(dir: &Path, place: &[OsString], args: &[OsString], cwd: Option<&Path>) -> Ran {
    std::fs::create_dir_all(dir).unwrap();
    let sock = dir.join("ctrl.sock");
    let _ = std::fs::remove_file(&sock);
    let l = UnixListener::bind(&sock).expect("control socket");
    let mut child = std::process::Command::new(binary())
        .args(place)
        .args(args)
        .current_dir(cwd.unwrap_or(Path::new("/")))
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("client");
    // the client may be writing more than the socket holds
    l.set_nonblocking(true).unwrap();
    let mut bytes = vec![];
    let mut connections = 0;
    let mut err = child.stderr.take().unwrap();
    let status = std::thread::scope(|s| {
        let h = s.spawn(move || {
            let mut t = vec![];
            let _ = err.read_to_end(&mut t);
            String::from_utf8_lossy(&t).into_owned()
        });
        let mut take = |l: &UnixListener| {
            while let Ok((mut c, _)) = l.accept() {
                connections += 1;
                c.set_nonblocking(false).unwrap();
                c.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
                let _ = c.read_to_end(&mut bytes);
            }
        };
        let status = loop {
            take(&l);
            if let Some(st) = child.try_wait().expect("client") {
                break st;
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        take(&l);
        (status, h.join().unwrap())
    });
    Ran { code: status.0.code(), signal: status.0.signal(), connections, bytes, stderr: status.1 }
}

pub fn id_text(bytes: [u8; 32]) -> String {
    let mut b = vec![0];
    b.extend(bytes);
    base64::encode(b)
}
fn os(s: &[&str]) -> Vec<OsString> {
    s.iter().map(|s| OsString::from(*s)).collect()
}

/// The bytes of some commands as the real client sends them.
pub fn wire() -> Wire {
    let s = Scratch::new("wire");
    let (x, y) = (id_text([0x41; 32]), id_text([0x42; 32]));
    let a4: SocketAddr = "10.0.0.1:4001".parse().unwrap();
    let a6: SocketAddr = "[fe80::7]:4002".parse().unwrap();
    let list = vec![
        (os(&["connect", &x, &a4.to_string()]), Recorded::Connect { peer: x.clone(), address: a4 }),
        (os(&["connect", &y, &a6.to_string()]), Recorded::Connect { peer: y.clone(), address: a6 }),
        (os(&["send-text", &x, "some text"]), Recorded::Local { peer: x, command: b"some text".to_vec() }),
        (os(&["send-text", &y, ""]), Recorded::Local { peer: y, command: vec![] }),
    ];
    list.into_iter()
        .map(|(a, r)| {
            let c = run_client(&s.0, &a);
            if c.code != Some(0) || c.bytes.is_empty() {
                eprintln!("the client does not send a plain command {:?}: {}", a, c.stderr);
            }
            (c.bytes, r)
        })
        .collect()
}

pub fn check(ctx: &Ctx) {
    ctx.assume("the client is started with a control socket it can connect to");
    let base: [u8; 32] = std::array::from_fn(|i| 0x30 + i as u8);
    let mut valid: Vec<(String, Vec<OsString>, Recorded)> = vec![];
    let mut ids: Vec<[u8; 32]> = vec![base, [0; 32], [0xFF; 32]];
    for i in 0..32 {
        for v in [0u8, 1, 0x7F, 0x80, 0xFE, 0xFF] {
            let mut b = base;
            b[i] = v;
            ids.push(b);
        }
    }
    if !ctx.quick() {
        for i in 0..32 {
            for v in 0..=255u8 {
                let mut b = base;
                b[i] = v;
                ids.push(b);
            }
        }
    }
    let mut addrs: Vec<String> = vec![];
    for ip in [
        "0.0.0.0", "127.0.0.1", "255.255.255.255", "1.2.3.4", "4.3.2.1", "10.0.0.200", "[::]", "[::1]", "[fe80::1]", "[1:2:3:4:5:6:7:8]", "[ff02::ffff]",
        "[2001:db8::8:800:200c:417a]", "[::ffff:1.2.3.4]", "[ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff]",
    ] {
        for port in [0, 1, 80, 255, 256, 257, 4096, 32767, 32768, 65534, 65535] {
            addrs.push(format!("{}:{}", ip, port));
        }
    }
    for i in 0..4 {
        for v in [0, 1, 127, 128, 255] {
            let mut o = [9u8, 8, 7, 6];
            o[i] = v;
            addrs.push(format!("{}.{}.{}.{}:1234", o[0], o[1], o[2], o[3]));
        }
    }
    for i in 0..8 {
        for v in [0u16, 1, 0xFF, 0x100, 0xFFFF] {
            let mut o = [0x1001u16, 0x1002, 0x1003, 0x1004, 0x1005, 0x1006, 0x1007, 0x1008];
            o[i] = v;
            addrs.push(format!("[{}]:1234", std::net::Ipv6Addr::from(o)));
        }
    }
    for i in 0..16 {
        addrs.push(format!("1.2.3.4:{}", 1u32 << i));
    }
    let mut texts: Vec<String> = vec![
        "".into(), "a".into(), " ".into(), "two words".into(), "line\nline".into(), "tab\t".into(), "\u{e9}\u{df}\u{416}\u{4e2d}\u{1f600}".into(), "a\u{301}".into(), "\u{feff}x".into(),
        "\"quoted\"".into(), "'".into(), "$HOME `x`".into(), "\\".into(), "%s%n".into(), "\u{1}\u{7f}".into(), "x".repeat(255), "x".repeat(256), "y".repeat(257), "z".repeat(4096), "\u{1f600}".repeat(9000), "w".repeat(65535), "w".repeat(65536), "v".repeat(120_000),
    ];
    texts.extend((0..ctx.tier(70, 600)).map(|n| "t".repeat(n)));
    texts.extend((1..128u8).map(|c| (c as char).to_string()).filter(|c| c != "-"));
    // the identity field is mixed with every kind of command
    for b in &ids {
        let t = id_text(*b);
        valid.push((format!("connect {}", t), os(&["connect", &t, "1.2.3.4:56"]), Recorded::Connect { peer: t.clone(), address: "1.2.3.4:56".parse().unwrap() }));
        valid.push((format!("send-text {}", t), os(&["send-text", &t, "hi"]), Recorded::Local { peer: t.clone(), command: b"hi".to_vec() }));
    }
    let t = id_text(base);
    for a in &addrs {
        valid.push((format!("connect to {}", a), os(&["connect", &t, a]), Recorded::Connect { peer: t.clone(), address: a.parse().unwrap() }));
    }
    let scoped = "[fe80::1%3]:80";
    valid.push((format!("connect to {}", scoped), os(&["connect", &t, scoped]), Recorded::Connect { peer: t.clone(), address: scoped.parse().unwrap() }));
    for x in &texts {
        valid.push((format!("text {}", mcx::short_hex(x.as_bytes())), os(&["send-text", &t, x]), Recorded::Local { peer: t.clone(), command: x.clone().into_bytes() }));
    }
    for x in ["-", "--", "-x", "--help", "--path", "-V"] {
        valid.push((format!("text {} after --", x), os(&["send-text", "--", &t, x]), Recorded::Local { peer: t.clone(), command: x.as_bytes().to_vec() }));
    }

    let scratch = Scratch::new("client");
    let results: Mutex<Vec<(usize, Vec<u8>)>> = Mutex::new(vec![]);
    let order: Vec<usize> = (0..valid.len()).collect();
    ctx.par(&order, |i| {
        let (key, args, _) = &valid[*i];
        ctx.case(key, || {
            let dir = scratch.0.join(format!("v{}", i));
            let r = run_client(&dir, args);
            let _ = std::fs::remove_dir_all(&dir);
            ctx.steps(1);
            if r.code != Some(0) {
                return Err(format!("a valid command line ended with status {:?}, signal {:?}: {}", r.code, r.signal, r.stderr.lines().next().unwrap_or("")));
            }
            if r.connections != 1 {
                return Err(format!("the client connected {} times", r.connections));
            }
            results.lock().unwrap().push((*i, r.bytes));
            Ok(())
        });
    });
    // every way to name the directory
    let plain = os(&["send-text", &t, "hi"]);
    let names: Vec<OsString> = vec![
        "d".into(), "with space".into(), "\u{e9}\u{4e2d}".into(), OsString::from_vec(vec![b'n', 0xFF, 0xFE]), "-dash".into(), "a/b/c".into(), "x=y".into(), "q\"q'".into(), "n".repeat(60).into(),
    ];
    let places: Vec<(usize, usize)> = (0..names.len()).flat_map(|n| (0..4).map(move |f| (n, f))).collect();
    ctx.par(&places, |(n, f)| {
        let name = &names[*n];
        let key = format!("directory {} {}", mcx::short_hex(name.as_encoded_bytes()), ["--path P", "--path=P", "relative --path P", "relative --path=P"][*f]);
        ctx.case(&key, || {
            let root = scratch.0.join(format!("p{}-{}", n, f));
            let dir = root.join(name);
            let shown = if *f < 2 { dir.clone().into_os_string() } else { name.clone() };
            let place = if f % 2 == 0 {
                vec![OsString::from("--path"), shown]
            } else {
                let mut w = OsString::from("--path=");
                w.push(shown);
                vec![w]
            };
            // a separate word that starts with a dash is another option
            if *f == 2 && name == "-dash" {
                return Ok(());
            }
            let r = run_client_with(&dir, &place, &plain, Some(&root));
            let _ = std::fs::remove_dir_all(&root);
            ctx.steps(1);
            ctx.trace();
            ctx.state(&key);
            if r.code != Some(0) || r.connections != 1 {
                return Err(format!("a valid command line ended with status {:?}, signal {:?}: {}", r.code, r.signal, r.stderr.lines().find(|l| !l.is_empty()).unwrap_or("")));
            }
            let got = feed(vec![r.bytes])?;
            if got != [Recorded::Local { peer: t.clone(), command: b"hi".to_vec() }] {
                return Err(format!("the node received {:?}", got));
            }
            ctx.outcome("text received as sent");
            Ok(())
        });
    });
    let mut results = results.into_inner().unwrap();
    results.sort();
    // what the node makes of it
    let chunks: Vec<Vec<(usize, Vec<u8>)>> = results.chunks(40).map(|c| c.to_vec()).collect();
    ctx.par(&chunks, |chunk| {
        let together = feed(chunk.iter().map(|c| c.1.clone()).collect());
        let same = matches!(&together, Ok(v) if v.len() == chunk.len() && v.iter().zip(chunk).all(|(a, b)| *a == valid[b.0].2));
        if same {
            ctx.traces(chunk.len() as u64);
            for (i, b) in chunk {
                ctx.state(&(i, b));
                ctx.outcome(match &valid[*i].2 {
                    Recorded::Connect { .. } => "connect received as sent",
                    Recorded::Local { .. } => "text received as sent",
                });
            }
            return;
        }
        for (i, b) in chunk {
            let (key, _, want) = &valid[*i];
            ctx.case(key, || {
                ctx.trace();
                let got = feed(vec![b.clone()])?;
                if got.len() != 1 || got[0] != *want {
                    let show = |r: &Recorded| {
                        let s = format!("{:?}", r);
                        s.chars().take(300).collect::<String>()
                    };
                    return Err(format!("the client was told {}, the node received {:?}", show(want), got.iter().map(show).collect::<Vec<_>>()));
                }
                Ok(())
            });
        }
    });

    let mut invalid: Vec<(String, Vec<OsString>)> = vec![
        ("no subcommand".into(), vec![]),
        ("unknown subcommand".into(), os(&["disconnect", &t])),
        ("connect without arguments".into(), os(&["connect"])),
        ("connect without an address".into(), os(&["connect", &t])),
        ("connect with too much".into(), os(&["connect", &t, "1.2.3.4:5", "more"])),
        ("text without a text".into(), os(&["send-text", &t])),
        ("text with too much".into(), os(&["send-text", &t, "a", "b"])),
        ("swapped".into(), os(&["connect", "1.2.3.4:5", &t])),
        ("unknown flag".into(), os(&["connect", &t, "1.2.3.4:5", "--fast"])),
    ];
    for a in ["", " ", "1.2.3.4", ":80", "1.2.3.4:", "1.2.3.4:65536", "1.2.3.4:-1", "1.2.3.4:80 ", "1.2.3:80", "256.1.1.1:80", "host:80", "::1:80", "[::1]", "[::1]:", "[::g]:1", "[::1]:70000", "1.2.3.4:0x50", "01.2.3.4:5", "\u{e9}:80"] {
        invalid.push((format!("address {:?}", a), os(&["connect", &t, a])));
    }
    for n in 0..=70usize {
        if n != 33 {
            invalid.push((format!("identity of {} bytes", n), os(&["connect", &base64::encode(vec![0x11; n]), "1.2.3.4:5"])));
            invalid.push((format!("text to an identity of {} bytes", n), os(&["send-text", &base64::encode(vec![0; n]), "x"])));
        }
    }
    for n in 0..44 {
        invalid.push((format!("{} characters of an identity", n), os(&["send-text", &t[..n], "x"])));
        let mut s = t.clone().into_bytes();
        s[n] = b'!';
        invalid.push((format!("identity with ! at {}", n), os(&["connect", std::str::from_utf8(&s).unwrap(), "1.2.3.4:5"])));
    }
    for (k, x) in [("space", format!("{} ", t)), ("double", format!("{}{}", t, t)), ("padding", format!("{}=", t)), ("non-ASCII", format!("{}\u{e9}", &t[..43]))] {
        invalid.push((format!("identity with {}", k), os(&["connect", &x, "1.2.3.4:5"])));
    }
    let bad = OsString::from_vec(vec![b'a', 0xFF, b'b']);
    let o = |s: &str| OsString::from(s);
    invalid.push(("text that is not UTF-8".into(), vec![o("send-text"), o(&t), bad.clone()]));
    invalid.push(("identity that is not UTF-8".into(), vec![o("send-text"), bad.clone(), o("x")]));
    invalid.push(("address that is not UTF-8".into(), vec![o("connect"), o(&t), bad.clone()]));
    invalid.push(("subcommand that is not UTF-8".into(), vec![bad, o(&t)]));
    ctx.par(&(0..invalid.len()).collect::<Vec<_>>(), |i| {
        let (key, args) = &invalid[*i];
        ctx.case(key, || {
            let dir = scratch.0.join(format!("i{}", i));
            let r = run_client(&dir, args);
            let _ = std::fs::remove_dir_all(&dir);
            ctx.steps(1);
            ctx.trace();
            ctx.state(&key);
            if !r.bytes.is_empty() {
                return Err(format!("{} bytes were sent", r.bytes.len()));
            }
            if r.signal.is_some() || r.code == Some(101) {
                return Err(format!("the client crashed: {}", r.stderr.lines().find(|l| l.contains("panicked")).unwrap_or("no message")));
            }
            if r.code == Some(0) {
                return Err("an invalid command line was accepted".into());
            }
            ctx.outcome("refused");
            Ok(())
        });
    });
}
