//! C21: the downloader, against a scripted loopback server. Name resolution and connecting are
//! replaced by stand-ins in this executable, so that no request can leave the sandbox.
use std::{
    cell::Cell,
    collections::BTreeMap,
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    path::Path,
    str::FromStr,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
};

use hun_law::mk_downloader::{download_mk_issue, MkIssue};

use crate::{
    mon::{guard, Env, Mon},
    rng::Rng,
    Check,
};

const HOST: &str = "www.kozlonyok.hu";

thread_local! {
    /// where connections of this thread to the gazette's server go; 0: nowhere
    static PORT: Cell<u16> = const { Cell::new(0) };
    static RESOLVED: Cell<u64> = const { Cell::new(0) };
    static STRAY: Cell<u64> = const { Cell::new(0) };
}

#[cfg(not(verif_asan))]
mod standins {
    use super::*;
    /// Stand-in: the gazette's host is the loopback, nothing else exists
    #[no_mangle]
    pub unsafe extern "C" fn getaddrinfo(
        node: *const libc::c_char,
        _service: *const libc::c_char,
        _hints: *const libc::addrinfo,
        res: *mut *mut libc::addrinfo,
    ) -> libc::c_int {
        let name = if node.is_null() { "".into() } else { std::ffi::CStr::from_ptr(node).to_string_lossy() };
        if name != HOST {
            STRAY.with(|s| s.set(s.get() + 1));
            return libc::EAI_NONAME;
        }
        RESOLVED.with(|s| s.set(s.get() + 1));
        let ai = libc::calloc(1, std::mem::size_of::<libc::addrinfo>()) as *mut libc::addrinfo;
        let sa = libc::calloc(1, std::mem::size_of::<libc::sockaddr_in>()) as *mut libc::sockaddr_in;
        (*sa).sin_family = libc::AF_INET as u16;
        (*sa).sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        (*ai).ai_family = libc::AF_INET;
        (*ai).ai_socktype = libc::SOCK_STREAM;
        (*ai).ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
        (*ai).ai_addr = sa as *mut libc::sockaddr;
        *res = ai;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn freeaddrinfo(ai: *mut libc::addrinfo) {
        if !ai.is_null() {
            libc::free((*ai).ai_addr as *mut libc::c_void);
            libc::free(ai as *mut libc::c_void);
        }
    }
    /// Stand-in: port 80 of the loopback is the scripted server
    #[no_mangle]
    pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        if (*addr).sa_family as i32 == libc::AF_INET && len as usize >= std::mem::size_of::<libc::sockaddr_in>() {
            a = *(addr as *const libc::sockaddr_in);
            if u16::from_be(a.sin_port) == 80 && a.sin_addr.s_addr == u32::from_ne_bytes([127, 0, 0, 1]) {
                let p = PORT.with(|p| p.get());
                if p == 0 {
                    *libc::__errno_location() = libc::ECONNREFUSED;
                    return -1;
                }
                a.sin_port = p.to_be();
                // (many short connections: wait for local ports where they have run out)
                for _ in 0..300 {
                    let r = libc::syscall(libc::SYS_connect, fd, &a as *const _ as *const libc::sockaddr, len) as libc::c_int;
                    if r == 0 || *libc::__errno_location() != libc::EADDRNOTAVAIL {
                        return r;
                    }
                    libc::usleep(300_000);
                }
                return -1;
            }
            if a.sin_addr.s_addr == u32::from_ne_bytes([127, 0, 0, 1]) {
                return libc::syscall(libc::SYS_connect, fd, addr, len) as libc::c_int;
            }
        }
        let _ = a;
        STRAY.with(|s| s.set(s.get() + 1));
        *libc::__errno_location() = libc::ENETUNREACH;
        -1
    }
}

#[derive(Debug, Clone)]
enum Answer {
    Ok(Vec<u8>),
    Chunked(Vec<u8>, usize),
    /// no length given, ended by closing
    UntilClose(Vec<u8>),
    Status(u16),
    /// announces more than it sends
    Truncated(Vec<u8>, usize),
    /// closes without an answer
    Nothing,
    Garbage,
}

impl Answer {
    fn body(&self) -> Option<&Vec<u8>> {
        match self {
            Answer::Ok(b) | Answer::Chunked(b, _) | Answer::UntilClose(b) => Some(b),
            _ => None,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Answer::Ok(b) => {
                let _ = write!(o, "HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\nContent-Length: {}\r\n\r\n", b.len());
                o.extend_from_slice(b);
            }
            Answer::Chunked(b, n) => {
                let _ = write!(o, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
                for c in b.chunks((*n).max(1)) {
                    let _ = write!(o, "{:x}\r\n", c.len());
                    o.extend_from_slice(c);
                    o.extend_from_slice(b"\r\n");
                }
                o.extend_from_slice(b"0\r\n\r\n");
            }
            Answer::UntilClose(b) => {
                let _ = write!(o, "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n");
                o.extend_from_slice(b);
            }
            Answer::Status(s) => {
                let _ = write!(o, "HTTP/1.1 {s} Something\r\nContent-Length: 11\r\n\r\n%PDF-wrong!");
            }
            Answer::Truncated(b, missing) => {
                let _ = write!(o, "HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", b.len() + missing);
                o.extend_from_slice(b);
            }
            Answer::Nothing => {}
            Answer::Garbage => o.extend_from_slice(b"SSH-2.0-OpenSSH\r\n\r\n"),
        }
        o
    }
}

struct Server {
    port: u16,
    /// request lines with the Host header
    log: Arc<Mutex<Vec<(String, String)>>>,
    answers: Arc<Mutex<BTreeMap<String, Answer>>>,
    stop: Arc<AtomicBool>,
    handle: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    fn new() -> Server {
        let l = (0..300)
            .find_map(|_| {
                TcpListener::bind("127.0.0.1:0").ok().or_else(|| {
                    std::thread::sleep(std::time::Duration::from_millis(300));
                    None
                })
            })
            .expect("loopback");
        let port = l.local_addr().unwrap().port();
        let log = Arc::new(Mutex::new(vec![]));
        let answers = Arc::new(Mutex::new(BTreeMap::new()));
        let stop = Arc::new(AtomicBool::new(false));
        let (log2, ans2, stop2) = (log.clone(), answers.clone(), stop.clone());
        let handle = std::thread::spawn(move || loop {
            let Ok((mut c, _)) = l.accept() else { break };
            if stop2.load(Ordering::SeqCst) {
                break;
            }
            let (log3, ans3) = (log2.clone(), ans2.clone());
            std::thread::spawn(move || serve(&mut c, &log3, &ans3));
        });
        Server { port, log, answers, stop, handle: Some(handle) }
    }
    fn take_log(&self) -> Vec<(String, String)> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
}

fn serve(c: &mut TcpStream, log: &Mutex<Vec<(String, String)>>, answers: &Mutex<BTreeMap<String, Answer>>) {
    let mut buf = vec![];
    let mut b = [0u8; 4096];
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
        match c.read(&mut b) {
            Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
            _ => break,
        }
    }
    let text = String::from_utf8_lossy(&buf).to_string();
    let line = text.lines().next().unwrap_or("").to_string();
    let host = text
        .lines()
        .find_map(|l| l.to_lowercase().strip_prefix("host:").map(|h| h.trim().to_string()))
        .unwrap_or_default();
    log.lock().unwrap().push((line.clone(), host));
    let path = line.split(' ').nth(1).unwrap_or("").to_string();
    let a = answers.lock().unwrap().get(&path).cloned().unwrap_or(Answer::Status(404));
    let bytes = a.bytes();
    // in pieces, as networks do
    for part in bytes.chunks(100_000) {
        if c.write_all(part).is_err() {
            break;
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

fn path_of(year: i64, issue: i64) -> String {
    let y = (year % 100).to_string();
    let i = issue.to_string();
    let pad = |s: &str, n: usize| "0".repeat(n.saturating_sub(s.len())) + s;
    format!("/nkonline/MKPDF/hiteles/MK{}{}.pdf", pad(&y, 2), pad(&i, 3))
}

fn gen_body(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 100),
        3 => r.range(8000, 9000),
        4 => r.range(100_000, 300_000),
        _ => r.range(100, 20000),
    } as usize;
    let mut v: Vec<u8> = b"%PDF-1.5\n".to_vec();
    v.extend((0..n).map(|i| (r.next() >> (i % 8)) as u8));
    v.truncate(n);
    v
}

fn gen_answer(r: &mut Rng) -> Answer {
    match r.below(12) {
        0..=4 => Answer::Ok(gen_body(r)),
        5 => Answer::Chunked(gen_body(r), r.range(1, 9000) as usize),
        6 => Answer::UntilClose(gen_body(r)),
        7 => Answer::Status(*r.pick(&[404, 403, 400, 410, 500, 502, 503])),
        8 => Answer::Truncated(gen_body(r), r.range(1, 5000) as usize),
        9 | 10 => Answer::Nothing,
        _ => Answer::Garbage,
    }
}

fn gen_issue(r: &mut Rng) -> (i64, i64) {
    let year = if r.chance(2, 3) { *r.pick(&[2013, 2012, 2020, 2009, 2010, 2031]) } else { r.range(2000, 2099) };
    let issue = if r.chance(2, 3) { *r.pick(&[1, 11, 111, 10, 100, 101, 2, 12, 21, 999]) } else { r.range(1, 1200) };
    (year, issue)
}

/// All files below a directory with their contents
fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().display().to_string(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

fn fetch(port: u16, (year, issue): (i64, i64), dir: &Path) -> Result<Result<Vec<u8>, String>, crate::mon::Panic> {
    PORT.with(|p| p.set(port));
    let r = guard(|| download_mk_issue(&MkIssue { year, issue }, dir).map_err(|e| format!("{e:#}")));
    PORT.with(|p| p.set(0));
    r
}

fn history(r: &mut Rng, m: &mut Mon) {
    let scratch = tempfile::tempdir().unwrap();
    let dir = scratch.path().join("cache").join("deep");
    let server = Server::new();
    let mut cached: BTreeMap<(i64, i64), Vec<u8>> = BTreeMap::new();
    let mut steps = vec![];
    let mut issues: Vec<(i64, i64)> = (0..r.range(1, 5)).map(|_| gen_issue(r)).collect();
    if r.chance(1, 3) {
        // years that differ in the century only share the published address, never the cache entry
        let (y, i) = issues[0];
        issues.push((y - 100, i));
    }
    for _ in 0..r.range(2, 12) {
        let is = *r.pick(&issues);
        let path = path_of(is.0, is.1);
        let offline = r.chance(1, 8);
        let a = gen_answer(r);
        server.answers.lock().unwrap().clear();
        server.answers.lock().unwrap().insert(path.clone(), a.clone());
        steps.push(format!("{is:?} {} {}", if offline { "offline" } else { "" }, format!("{a:?}").chars().take(40).collect::<String>()));
        let before = tree(&dir);
        RESOLVED.with(|c| c.set(0));
        let stray0 = STRAY.with(|c| c.get());
        let got = fetch(if offline { 0 } else { server.port }, is, &dir);
        let resolved = RESOLVED.with(|c| c.get());
        let log = server.take_log();
        let ctx = || format!("history {}\nrequests {log:?}", steps.join("\n  "));
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                m.fail("download:panic", format!("{p} {}", ctx()));
                return;
            }
        };
        m.check(STRAY.with(|c| c.get()) == stray0, "stray", || format!("connected elsewhere: {}", ctx()));
        if let Some(b) = cached.get(&is) {
            m.count("served_from_cache", 1);
            let ok = m.check(log.is_empty() && resolved == 0, "cached:network", ctx)
                & m.check(got.as_ref().ok() == Some(b), "cached:bytes", || format!("got {:?} want {} bytes\n{}", got.as_ref().map(|b| b.len()), b.len(), ctx()))
                & m.check(tree(&dir) == before, "cached:changed", ctx);
            if !ok {
                return;
            }
            continue;
        }
        if offline {
            m.count("offline", 1);
            if !m.check(got.is_err(), "offline:ok", ctx) || !m.check(tree(&dir) == before, "offline:stored", ctx) {
                return;
            }
            continue;
        }
        m.count("requests", log.len() as u64);
        if !m.check(
            !log.is_empty() && log.iter().all(|l| l.0 == format!("GET {path} HTTP/1.1") && l.1 == HOST),
            "address",
            || format!("want {path} {}", ctx()),
        ) {
            return;
        }
        match a.body() {
            Some(b) => {
                m.count("downloads", 1);
                m.observe(&(is, b), true);
                if !m.check(log.len() == 1, "download:requests", ctx)
                    || !m.check(got.as_ref().ok() == Some(b), "download:bytes", || format!("got {:?} want {} bytes\n{}", got.as_ref().map(|b| b.len()), b.len(), ctx()))
                {
                    return;
                }
                let after = tree(&dir);
                let unchanged = before.iter().all(|(k, v)| after.get(k) == Some(v));
                if !m.check(unchanged, "download:others_changed", ctx) {
                    return;
                }
                cached.insert(is, b.clone());
            }
            None => {
                m.count("failures", 1);
                m.observe(&(is, format!("{a:?}")), true);
                if !m.check(got.is_err(), "failed:ok", || format!("got {:?} bytes {}", got.as_ref().map(|b| b.len()), ctx()))
                    || !m.check(tree(&dir) == before, "failed:stored", ctx)
                {
                    return;
                }
            }
        }
    }
    m.sample(|| steps.join("; "));
}

/// The storing of the download fails or the process dies in the middle of it
fn faults(r: &mut Rng, m: &mut Mon) {
    let scratch = tempfile::tempdir().unwrap();
    let dir = scratch.path().join("cache");
    let server = Server::new();
    let is = gen_issue(r);
    let path = path_of(is.0, is.1);
    let mut body = gen_body(r);
    while body.len() < 10 {
        body = gen_body(r);
    }
    let limit = r.below(body.len());
    let die = r.chance(1, 2);
    let answer = match r.below(3) {
        0 => Answer::Ok(body.clone()),
        1 => Answer::UntilClose(body.clone()),
        _ => Answer::Chunked(body.clone(), 4096),
    };
    server.answers.lock().unwrap().insert(path.clone(), answer);
    let me = std::env::current_exe().unwrap();
    let out = std::process::Command::new(me)
        .args(["c21-child", &server.port.to_string(), &is.0.to_string(), &is.1.to_string(), &limit.to_string(), if die { "die" } else { "fail" }])
        .arg(&dir)
        .output()
        .expect("child");
    let code = out.status.code();
    let log = server.take_log();
    let ctx = || format!("issue {is:?}, {} bytes, file size limit {limit}, {}; child {:?} {}", body.len(), if die { "dies" } else { "write fails" }, out.status, String::from_utf8_lossy(&out.stdout));
    m.observe(&(is, limit, die), true);
    m.count(if die { "deaths" } else { "write_failures" }, 1);
    if code == Some(0) {
        // nothing was written beyond the limit, yet it claims success
        m.fail("fault:ok", ctx());
        return;
    }
    if !m.check(log.len() == 1, "fault:requests", ctx) {
        return;
    }
    if !die {
        m.check(code == Some(3), "fault:panic", || format!("{} {}", ctx(), String::from_utf8_lossy(&out.stderr)));
    }
    // the next request must not be served the remains
    let before = server.take_log().len();
    let again = fetch(server.port, is, &dir);
    match again {
        Ok(Ok(b)) => {
            let n = server.take_log().len() - before;
            m.check(b == body && n == 1, "fault:remains", || format!("{}; then got {} bytes with {n} requests", ctx(), b.len()));
        }
        Ok(Err(e)) => m.fail("fault:stuck", format!("{} then {e}", ctx())),
        Err(p) => m.fail("fault:panic", format!("{} then {p}", ctx())),
    }
    match fetch(0, is, &dir) {
        Ok(Ok(b)) => {
            m.check(b == body, "fault:cached", ctx);
        }
        e => m.fail("fault:cached", format!("{} then {:?}", ctx(), e.map(|x| x.map(|b| b.len())))),
    };
}

/// The process under fault injection (see `faults`)
pub fn child_main(args: &[String]) -> ! {
    let p = |i: usize| args[i].parse::<i64>().unwrap();
    let (port, year, issue, limit) = (p(2) as u16, p(3), p(4), p(5) as u64);
    unsafe {
        if args[6] == "fail" {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        }
        let rl0 = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl0);
        let rl = libc::rlimit { rlim_cur: limit, rlim_max: limit };
        libc::setrlimit(libc::RLIMIT_FSIZE, &rl);
    }
    let dir = std::path::PathBuf::from(&args[7]);
    match fetch(port, (year, issue), &dir) {
        Ok(Ok(_)) => std::process::exit(0),
        Ok(Err(_)) => std::process::exit(3),
        Err(_) => std::process::exit(4),
    }
}

/// Several threads want the same few issues at once
fn concurrent(r: &mut Rng, m: &mut Mon) {
    let scratch = tempfile::tempdir().unwrap();
    let dir = scratch.path().join("cache");
    let server = Server::new();
    let mut bodies = BTreeMap::new();
    for _ in 0..r.range(1, 2) {
        let is = gen_issue(r);
        let n = r.range(1_000_000, 4_000_000) as usize;
        let seed = r.next();
        let body: Vec<u8> = (0..n as u64).map(|i| (i.wrapping_mul(seed | 1) >> 13) as u8).collect();
        server.answers.lock().unwrap().insert(path_of(is.0, is.1), Answer::Ok(body.clone()));
        bodies.insert(is, body);
    }
    let issues: Vec<_> = bodies.keys().copied().collect();
    let results: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..6)
            .map(|t| {
                let (issues, dir, port) = (&issues, &dir, server.port);
                s.spawn(move || (0..8).map(|k| (issues[(t + k) % issues.len()], fetch(port, issues[(t + k) % issues.len()], dir).map(|r| r.map_err(|e| e)))).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    m.observe(&issues, true);
    for (is, res) in results {
        m.count("concurrent_requests", 1);
        match res {
            Ok(Ok(b)) => {
                if !m.check(b == bodies[&is], "concurrent:bytes", || format!("{is:?}: got {} bytes of {}", b.len(), bodies[&is].len())) {
                    return;
                }
            }
            Ok(Err(e)) => {
                m.fail("concurrent:error", format!("{is:?}: {e}"));
                return;
            }
            Err(p) => {
                m.fail("concurrent:panic", p.to_string());
                return;
            }
        }
    }
    for is in issues {
        match fetch(0, is, &dir) {
            Ok(Ok(b)) => m.check(b == bodies[&is], "concurrent:cached", || format!("{is:?}")),
            e => m.check(false, "concurrent:cached", || format!("{is:?} {:?}", e.map(|x| x.map(|b| b.len())))),
        };
    }
}

fn designations(r: &mut Rng, m: &mut Mon) {
    let (y, i) = if r.chance(1, 2) { gen_issue(r) } else { ((r.next() >> r.range(1, 62)) as i64, (r.next() >> r.range(1, 62)) as i64) };
    let s = format!("{y}/{i}");
    m.observe(&s, true);
    if let Some(v) = m.no_panic("designation", || s.clone(), || MkIssue::from_str(&s)) {
        m.check(v.as_ref().ok() == Some(&MkIssue { year: y, issue: i }), "designation:read", || format!("{s:?} {v:?}"));
    }
    let bad = match r.below(9) {
        0 => format!("{y}"),
        1 => format!("{y}/{i}/{i}"),
        2 => format!("{y}/"),
        3 => format!("/{i}"),
        4 => format!("{y}/{i}x"),
        5 => format!("{y} / {i}"),
        6 => format!("MK{y}/{i}"),
        7 => format!("{y}.{i}"),
        _ => format!("99999999999999999999{y}/{i}"),
    };
    if let Some(v) = m.no_panic("designation", || bad.clone(), || MkIssue::from_str(&bad)) {
        m.check(v.is_err(), "designation:accepted", || format!("{bad:?} {v:?}"));
    }
}

/// Issues with many scanned pages
fn big(r: &mut Rng, m: &mut Mon) {
    let scratch = tempfile::tempdir().unwrap();
    let server = Server::new();
    let is = gen_issue(r);
    let mb = [11, 17, 21, 26, 33, 40, 52, 70, 140][(m.case % 9) as usize];
    let k = r.next() | 1;
    let body: Vec<u8> = (0..(mb << 20) + r.range(0, 5000) as u64).map(|i| (i.wrapping_mul(k) >> 13) as u8).collect();
    let a = match r.below(3) {
        0 => Answer::Chunked(body.clone(), r.range(5000, 70000) as usize),
        1 => Answer::UntilClose(body.clone()),
        _ => Answer::Ok(body.clone()),
    };
    server.answers.lock().unwrap().insert(path_of(is.0, is.1), a);
    let ctx = || format!("issue {is:?} of {} bytes", body.len());
    m.observe(&(is, body.len()), true);
    m.count("big_issues", 1);
    for round in 0..2 {
        match fetch(if round == 0 { server.port } else { 0 }, is, scratch.path()) {
            Ok(Ok(b)) => {
                m.check(b == body, "big:bytes", || format!("{}: round {round} returned {} bytes", ctx(), b.len()));
            }
            Ok(Err(e)) => m.fail("big:refused", format!("{}: round {round} {e}", ctx())),
            Err(p) => m.fail("big:panic", format!("{}: round {round} {p:?}", ctx())),
        }
    }
}

fn c21(env: &Env, m: &mut Mon) {
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "ALL_PROXY", "all_proxy", "no_proxy", "NO_PROXY"] {
        std::env::remove_var(v);
    }
    env.suite(m, "history", env.n(1500, 6000), history);
    env.suite(m, "faults", env.n(400, 3000), faults);
    env.suite(m, "big", env.n(9, 30), big);
    env.suite(m, "concurrent", env.n(20, 100), concurrent);
    env.suite(m, "designations", env.n(20000, 500000), designations);
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        level: "exploration",
        rule: "random histories of requests for up to 6 issues against a scripted loopback server (good, empty, chunked, unsized, truncated, error, garbage and no answers, offline), issues of up to 140 MB, writes that fail or a process that dies after any number of stored bytes, 6 threads asking for the same issues; every request and stored byte checked; distinct by issue and answer",
        assumptions: &[
            "years 2000..2099 have distinct addresses (the published scheme has two digits)",
            "name resolution and connect() are stand-ins; an answer of unknown length that is cut short is not a detectable failure, nor (with the HTTP library used) a chunked one",
            "process death is simulated at file size limits, not at power loss",
        ],
        run: c21,
    }]
}
