//! Many simulated runs over several worker processes; the violation with the lowest run number wins, is minimised,
//! written as a replay file and replayed in a fresh process.

use crate::plan::{self, Scn};
use simrt::{choice, sh, Shared, CNT_NAMES};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub const MAXW: usize = 64;
/// a run that burns this much CPU without ending hangs
const HANG_CPU: f64 = 20.0;

#[repr(C)]
struct Glob {
    best: AtomicU64,
    foreign: AtomicU64,
    known: AtomicU64,
    done: [AtomicU64; MAXW],
    fmsg_len: AtomicU64,
    fmsg: [u8; 512],
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Cfg {
    pub prop: u32,
    pub tier: String,
    pub seed: u64,
    pub config: String,
    pub profile: String,
    pub runs: u64,
    pub wall: f64,
    pub workers: usize,
    pub out: String,
    pub replays: String,
    pub dump: String,
    /// substrings of violation messages that are known findings of this property
    pub known: Vec<String>,
    /// seconds spent on making a failing run smaller
    pub minimise: f64,
}

fn run_seed(c: &Cfg, r: u64) -> u64 {
    splitmix(c.seed ^ splitmix(r ^ ((c.prop as u64) << 48)))
}

fn scn_of(scns: &[Scn], r: u64) -> usize {
    let tot: u64 = scns.iter().map(|s| s.weight as u64).sum();
    let mut k = r % tot;
    for (i, s) in scns.iter().enumerate() {
        if k < s.weight as u64 {
            return i;
        }
        k -= s.weight as u64;
    }
    0
}

fn run_one(s: &Scn, seed: u64, replay: Option<Vec<u32>>) -> simrt::RunOut {
    let f = s.f;
    simrt::run(simrt::RunCfg { seed, replay }, Box::new(move || f()))
}

fn known(c: &Cfg, msg: &str) -> bool {
    c.known.iter().any(|k| !k.is_empty() && msg.contains(k.as_str()))
}

fn cpu_of(pid: i32) -> f64 {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::clock_getcpuclockid(pid, &mut clk) != 0 {
            return 0.0;
        }
        let mut ts: libc::timespec = core::mem::zeroed();
        libc::clock_gettime(clk, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn shm(bytes: usize) -> *mut u8 {
    simrt::mem::sys_mmap(0, bytes, libc::MAP_SHARED | libc::MAP_ANONYMOUS) as *mut u8
}

const EXIT_DONE: i32 = 0;
const EXIT_FOUND: i32 = 1;
const EXIT_RECYCLE: i32 = 3;

#[allow(clippy::too_many_arguments)]
fn worker(c: &Cfg, scns: &[Scn], g: &Glob, hashes: *mut u64, w: usize, from: u64, mysh: *mut Shared, t0: Instant) -> ! {
    simrt::shared_set(mysh);
    simrt::install_panic_hook();
    let bit = 1u64 << c.prop;
    let mut r = from;
    let mut foreign = 0;
    let mut k = 0u64;
    while r < c.runs {
        if r > g.best.load(SeqCst) {
            break;
        }
        k += 1;
        if k % 16 == 0 && t0.elapsed().as_secs_f64() > c.wall {
            break;
        }
        sh().run = r;
        let nt = sh().counters[simrt::Cnt::nontrivial as usize];
        sh().busy = 1;
        let o = run_one(&scns[scn_of(scns, r)], run_seed(c, r), None);
        sh().busy = 0;
        g.done[w].fetch_add(1, SeqCst);
        unsafe {
            *hashes.add(r as usize) = if c.dump != "" || sh().counters[simrt::Cnt::nontrivial as usize] > nt { o.hash | 1 } else { 0 };
        }
        if o.violated {
            let s = sh();
            let msg = simrt::violation_text();
            if s.vprops & bit == 0 {
                foreign += 1;
                if g.foreign.fetch_add(1, SeqCst) == 0 {
                    let n = msg.len().min(512);
                    unsafe { core::ptr::copy_nonoverlapping(msg.as_ptr(), g.fmsg.as_ptr() as *mut u8, n) };
                    g.fmsg_len.store(n as u64, SeqCst);
                }
            } else if known(c, &msg) {
                foreign += 1;
                g.known.fetch_add(1, SeqCst);
            } else {
                g.best.fetch_min(r, SeqCst);
                unsafe { libc::_exit(EXIT_FOUND) };
            }
            if foreign > 3000 {
                // abandoned runs leak the driver's memory: start over in a fresh process
                sh().run = r + c.workers as u64;
                unsafe { libc::_exit(EXIT_RECYCLE) };
            }
        }
        r += c.workers as u64;
    }
    unsafe { libc::_exit(EXIT_DONE) }
}

#[derive(Clone, Debug, PartialEq)]
enum Class {
    Viol,
    Crash(i32),
    Hang,
}

pub fn check(c: &Cfg) -> i32 {
    let t0 = Instant::now();
    let scns = plan::scenarios(c.prop);
    if scns.is_empty() || c.runs == 0 {
        eprintln!("simdrv: nothing to simulate for C{:02} in {}", c.prop, c.config);
        return 2;
    }
    let g = unsafe { &*(shm(core::mem::size_of::<Glob>()) as *const Glob) };
    g.best.store(u64::MAX, SeqCst);
    let hashes = shm(c.runs as usize * 8 + 4096) as *mut u64;
    let nw = c.workers.min(MAXW);
    let shs: Vec<*mut Shared> = (0..nw).map(|_| simrt::shared_new()).collect();
    let mut pids = vec![0i32; nw];
    let mut seen = vec![(0u64, 0f64); nw];
    let mut found: Vec<(u64, usize, Class)> = Vec::new();
    let spawn = |w: usize, from: u64| unsafe {
        let p = libc::fork();
        if p < 0 {
            eprintln!("simdrv: fork failed");
            libc::_exit(2);
        }
        if p == 0 {
            worker(c, &scns, g, hashes, w, from, shs[w], t0);
        }
        p
    };
    for w in 0..nw {
        pids[w] = spawn(w, w as u64);
    }
    let mut live = nw;
    while live > 0 {
        let mut st = 0;
        let p = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if p > 0 {
            let Some(w) = pids.iter().position(|x| *x == p) else { continue };
            let s = unsafe { &*shs[w] };
            pids[w] = 0;
            live -= 1;
            if libc::WIFEXITED(st) {
                match libc::WEXITSTATUS(st) {
                    EXIT_DONE => {}
                    EXIT_FOUND => found.push((s.run, w, Class::Viol)),
                    EXIT_RECYCLE => {
                        pids[w] = spawn(w, s.run);
                        seen[w] = (g.done[w].load(SeqCst), 0.0);
                        live += 1;
                    }
                    e => {
                        eprintln!("simdrv: worker ended with {}", e);
                        return 2;
                    }
                }
            } else {
                let sig = libc::WTERMSIG(st);
                if s.busy == 0 {
                    eprintln!("simdrv: worker died of signal {} outside a run", sig);
                    return 2;
                }
                let hang = sig == libc::SIGKILL;
                if hang && !seen[w].1.is_infinite() {
                    eprintln!("simdrv: worker was killed");
                    return 2;
                }
                g.best.fetch_min(s.run, SeqCst);
                found.push((s.run, w, if hang { Class::Hang } else { Class::Crash(sig) }));
            }
            continue;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        for w in 0..nw {
            if pids[w] == 0 {
                continue;
            }
            let d = g.done[w].load(SeqCst);
            let cpu = cpu_of(pids[w]);
            if d != seen[w].0 {
                seen[w] = (d, cpu);
            } else if cpu - seen[w].1 > HANG_CPU {
                seen[w].1 = f64::INFINITY;
                unsafe { libc::kill(pids[w], libc::SIGKILL) };
            }
        }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    found.sort_by_key(|f| f.0);

    // ---- totals
    let mut cnt = vec![0u64; simrt::NCNT];
    for s in &shs {
        for k in 0..simrt::NCNT {
            cnt[k] += unsafe { (**s).counters[k] };
        }
    }
    let done: u64 = (0..nw).map(|w| g.done[w].load(SeqCst)).sum();
    let hs = unsafe { core::slice::from_raw_parts(hashes, c.runs as usize) };
    if c.dump != "" {
        let mut t = String::new();
        for (r, h) in hs.iter().enumerate() {
            let _ = writeln!(t, "{} {:x}", r, h);
        }
        std::fs::write(&c.dump, t).unwrap();
    }
    let mut v: Vec<u64> = hs.iter().copied().filter(|h| *h != 0).collect();
    let nontrivial = v.len();
    v.sort_unstable();
    v.dedup();
    let distinct = v.len();

    let mut per: Vec<(String, u64)> = scns.iter().map(|s| (s.name.to_string(), 0)).collect();
    if done == c.runs {
        for r in 0..c.runs {
            per[scn_of(&scns, r)].1 += 1;
        }
    } else {
        let tot: u64 = scns.iter().map(|s| s.weight as u64).sum();
        for (k, s) in scns.iter().enumerate() {
            per[k].1 = done * s.weight as u64 / tot;
        }
    }

    // ---- the violation
    let mut viol = String::from("null");
    let mut code = 0;
    if let Some((r, w, class)) = found.first().cloned() {
        code = 1;
        let s = unsafe { &*shs[w] };
        let scn = &scns[scn_of(&scns, r)];
        let choices = s.choices[..s.n as usize].to_vec();
        eprintln!("simdrv: C{:02} {:?} in run {} ({}), {} choices; minimising", c.prop, class, r, scn.name, choices.len());
        let small = minimise(c, scn, &choices, &class, c.minimise);
        let path = format!("{}/C{:02}-{}-{}.json", c.replays, c.prop, c.config, run_seed(c, r) & 0xffff_ffff);
        let (msg, trace) = trace_of(c, scn, &small);
        write_replay(&path, c, scn.name, r, &class, &msg, &choices, &small, &trace);
        // a fresh process must fail in the same way
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        let rep = matches!(&again, Ok(o) if o.status.code() == Some(1));
        eprintln!("simdrv: {} ({} choices, replay in a fresh process: {})", msg, small.len(), if rep { "reproduced" } else { "NOT reproduced" });
        if std::env::var("SIM_TRACE").is_ok() {
            for l in &trace {
                eprintln!("    {}", l);
            }
        }
        viol = format!("{{\"replay\":{},\"message\":{},\"run\":{},\"scenario\":{},\"seed\":{},\"choices\":{},\"original_choices\":{},\"reproduced\":{}}}",
            js(&path), js(&msg), r, js(scn.name), run_seed(c, r), small.len(), choices.len(), rep);
    }

    // ---- samples: one short run of every scenario
    let mut samples = Vec::new();
    for (k, s) in scns.iter().enumerate() {
        let rs = (0..c.runs.min(4000)).filter(|r| scn_of(&scns, *r) == k && hs[*r as usize] != 0).take(1);
        for r in rs {
            let (_, t) = trace_seed(s, run_seed(c, r));
            let mut t: Vec<String> = t.into_iter().map(|l| if l.len() > 150 { l.chars().take(150).collect() } else { l }).collect();
            let n = t.len();
            t.truncate(14);
            samples.push(format!("{{\"scenario\":{},\"run\":{},\"seed\":{},\"trace_lines\":{},\"begin\":[{}]}}",
                js(s.name), r, run_seed(c, r), n, t.iter().map(|l| js(l)).collect::<Vec<_>>().join(",")));
        }
    }

    let fmsg = String::from_utf8_lossy(&g.fmsg[..g.fmsg_len.load(SeqCst) as usize]).into_owned();
    let mut o = String::from("{");
    let _ = write!(o, "\"config\":{},\"profile\":{},\"runs\":{},\"planned\":{},\"nontrivial\":{},\"distinct\":{},\"wall\":{:.3},\"workers\":{}",
        js(&c.config), js(&c.profile), done, c.runs, nontrivial, distinct, search_wall, nw);
    let _ = write!(o, ",\"foreign\":{},\"foreign_example\":{},\"known\":{}", g.foreign.load(SeqCst), js(&fmsg), g.known.load(SeqCst));
    let _ = write!(o, ",\"scenarios\":{{{}}}", per.iter().map(|(n, k)| format!("{}:{}", js(n), k)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"counters\":{{{}}}", CNT_NAMES.iter().enumerate().map(|(k, n)| format!("{}:{}", js(n), cnt[k])).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violation\":{},\"samples\":[{}]}}", viol, samples.join(","));
    if std::fs::write(&c.out, o).is_err() {
        eprintln!("simdrv: cannot write {}", c.out);
        return 2;
    }
    code
}

// ------------------------------------------------------------------------------------------------- one run apart

/// Run in a child; returns how it ended, with the message and (if wanted) the trace.
fn apart(s: &Scn, seed: u64, replay: Option<Vec<u32>>, trace: bool) -> (Option<Class>, u64, String, Vec<String>, Vec<u32>) {
    let me = simrt::shared_new();
    let path = std::env::temp_dir().join(format!("simdrv-trace-{}-{}", std::process::id(), me as usize));
    let cp = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    unsafe {
        let p = libc::fork();
        if p == 0 {
            simrt::shared_set(me);
            simrt::install_panic_hook();
            if trace {
                simrt::TRACE = true;
                simrt::TRACE_FD = libc::open(cp.as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o600);
            }
            let it = libc::itimerval { it_interval: core::mem::zeroed(), it_value: libc::timeval { tv_sec: HANG_CPU as i64, tv_usec: 0 } };
            libc::setitimer(libc::ITIMER_PROF, &it, core::ptr::null_mut());
            let o = run_one(s, seed, replay);
            libc::_exit(if o.violated { 1 } else { 0 });
        }
        let mut st = 0;
        libc::waitpid(p, &mut st, 0);
        let s = &mut *me;
        let mut msg = String::new();
        let mut props = 0;
        let class = if libc::WIFEXITED(st) {
            if libc::WEXITSTATUS(st) == 1 {
                msg = String::from_utf8_lossy(&s.vmsg[..s.vmsg_len as usize]).into_owned();
                props = s.vprops;
                Some(Class::Viol)
            } else {
                None
            }
        } else if libc::WTERMSIG(st) == libc::SIGPROF {
            msg = "the simulated program does not come back (endless loop outside every simulated step)".into();
            Some(Class::Hang)
        } else {
            let pt = String::from_utf8_lossy(&s.panic[..(s.panic_len as usize).min(512)]).into_owned();
            msg = format!("the simulated program crashes with signal {} {}", libc::WTERMSIG(st), pt.replace('\n', " "));
            Some(Class::Crash(libc::WTERMSIG(st)))
        };
        let mut lines = Vec::new();
        if trace {
            if let Ok(t) = std::fs::read(&path) {
                lines = String::from_utf8_lossy(&t).lines().map(|l| l.to_string()).collect();
            }
            let _ = std::fs::remove_file(&path);
        }
        let ch = s.choices[..s.n as usize].to_vec();
        libc::munmap(me as *mut _, core::mem::size_of::<Shared>());
        (class, props, msg, lines, ch)
    }
}

fn trace_seed(s: &Scn, seed: u64) -> (String, Vec<String>) {
    let (_, _, m, t, _) = apart(s, seed, None, true);
    (m, t)
}

fn trace_of(_c: &Cfg, s: &Scn, ch: &[u32]) -> (String, Vec<String>) {
    let (_, _, m, t, _) = apart(s, 0, Some(ch.to_vec()), true);
    (m, t)
}

// ------------------------------------------------------------------------------------------------- minimiser

#[repr(C)]
struct Best {
    n: u64,
    stage: u64,
    tries: u64,
    c: [u32; simrt::MAX_CHOICES],
}

fn strip(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn minimise(c: &Cfg, scn: &Scn, orig: &[u32], class: &Class, budget: f64) -> Vec<u32> {
    let t0 = Instant::now();
    let b = unsafe { &mut *(shm(core::mem::size_of::<Best>()) as *mut Best) };
    b.n = orig.len() as u64;
    b.c[..orig.len()].copy_from_slice(orig);
    if *class == Class::Hang {
        return orig.to_vec();
    }
    let bit = 1u64 << c.prop;
    for _ in 0..6 {
        unsafe {
            let p = libc::fork();
            if p == 0 {
                let me = simrt::shared_new();
                simrt::shared_set(me);
                simrt::install_panic_hook();
                let it = libc::itimerval { it_interval: core::mem::zeroed(), it_value: libc::timeval { tv_sec: (budget + HANG_CPU) as i64, tv_usec: 0 } };
                libc::setitimer(libc::ITIMER_PROF, &it, core::ptr::null_mut());
                let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(nul, 2);
                let cl = class.clone();
                let test = |v: &[u32]| -> Option<Vec<u32>> {
                    match &cl {
                        Class::Viol => {
                            let o = run_one(scn, 0, Some(v.to_vec()));
                            (o.violated && sh().vprops & bit != 0 && !known(c, &simrt::violation_text())).then(choice::recorded)
                        }
                        k => {
                            let (cls, _, _, _, ch) = apart(scn, 0, Some(v.to_vec()), false);
                            (cls.as_ref() == Some(k)).then_some(ch)
                        }
                    }
                };
                shrink(b, &test, &|| t0.elapsed().as_secs_f64() > budget);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
            if libc::WIFEXITED(st) || t0.elapsed().as_secs_f64() > budget {
                break;
            }
            b.stage += 1;
        }
    }
    b.c[..b.n as usize].to_vec()
}

fn shrink(b: &mut Best, test: &dyn Fn(&[u32]) -> Option<Vec<u32>>, over: &dyn Fn() -> bool) {
    let mut cur = b.c[..b.n as usize].to_vec();
    let mut attempt = |cur: &mut Vec<u32>, v: Vec<u32>| -> bool {
        b.tries += 1;
        if b.tries > 40_000 {
            return false;
        }
        let v = strip(v);
        if v == *cur {
            return false;
        }
        if let Some(rec) = test(&v) {
            let rec = strip(rec);
            // shorter, or equally long and smaller
            if (rec.len(), rec.iter().map(|x| *x as u64).sum::<u64>()) < (cur.len(), cur.iter().map(|x| *x as u64).sum::<u64>()) {
                b.c[..rec.len()].copy_from_slice(&rec);
                b.n = rec.len() as u64;
                *cur = rec;
                return true;
            }
        }
        false
    };
    let x = cur.clone();
    attempt(&mut cur, x);
    loop {
        let before = cur.clone();
        // cut the tail
        let mut cut = cur.len() / 2;
        while cut >= 1 && !over() {
            let v = cur[..cur.len() - cut.min(cur.len())].to_vec();
            if !attempt(&mut cur, v) {
                cut /= 2;
            } else {
                cut = cut.min(cur.len());
            }
        }
        // delete, zero chunks
        let mut sz = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && !over() {
                let e = (i + sz).min(cur.len());
                let mut v = cur[..i].to_vec();
                v.extend_from_slice(&cur[e..]);
                if attempt(&mut cur, v) {
                    continue;
                }
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut v = cur.clone();
                    v[i..e].fill(0);
                    if attempt(&mut cur, v) {
                        continue;
                    }
                }
                i += sz;
            }
            if sz == 1 || over() {
                break;
            }
            sz = (sz / 2).max(1);
        }
        // smaller values
        let mut i = 0;
        while i < cur.len() && !over() {
            let x = cur[i];
            for y in [x / 2, x.saturating_sub(1)] {
                if y < x && i < cur.len() && cur[i] == x {
                    let mut v = cur.clone();
                    v[i] = y;
                    attempt(&mut cur, v);
                }
            }
            i += 1;
        }
        if over() || cur == before {
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------------- replay files

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_replay(path: &str, c: &Cfg, scn: &str, r: u64, class: &Class, msg: &str, orig: &[u32], small: &[u32], trace: &[String]) {
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": \"C{:02}\",\n \"config\": {},\n \"profile\": {},\n \"scenario\": {},", c.prop, js(&c.config), js(&c.profile), js(scn));
    let _ = writeln!(o, " \"verif_seed\": {},\n \"run\": {},\n \"seed\": {},\n \"class\": {},", c.seed, r, run_seed(c, r), js(&format!("{:?}", class)));
    let _ = writeln!(o, " \"message\": {},", js(msg));
    let _ = writeln!(o, " \"original_choices\": {},", orig.len());
    let _ = writeln!(o, " \"choices\": {:?},", small);
    let _ = writeln!(o, " \"trace\": [\n  {}\n ]\n}}", trace.iter().map(|l| js(l)).collect::<Vec<_>>().join(",\n  "));
    let _ = std::fs::create_dir_all(&c.replays);
    if std::fs::write(path, o).is_err() {
        eprintln!("simdrv: cannot write {}", path);
    }
}

pub fn field(t: &str, name: &str) -> Option<String> {
    let k = t.find(&format!("\"{}\":", name))?;
    let rest = t[k + name.len() + 3..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(ch) = it.next() {
            match ch {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    'u' => {
                        let h: String = (0..4).filter_map(|_| it.next()).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    x => o.push(x),
                },
                x => o.push(x),
            }
        }
        None
    } else if rest.starts_with('[') {
        Some(rest[..rest.find(']')? + 1].to_string())
    } else {
        Some(rest.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

/// Exit 1: reproduced; 0: it does not fail; 2: it fails in another way.
pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("simdrv: cannot read {}", path);
        return 3;
    };
    let prop: u32 = field(&t, "property").unwrap()[1..].parse().unwrap();
    let name = field(&t, "scenario").unwrap();
    let msg = field(&t, "message").unwrap();
    let ch: Vec<u32> = field(&t, "choices").unwrap().trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let scns = plan::scenarios(prop);
    let Some(s) = scns.iter().find(|s| s.name == name) else {
        eprintln!("simdrv: no scenario {}", name);
        return 3;
    };
    let (cls, props, m, lines, _) = apart(s, 0, Some(ch), true);
    for l in &lines {
        println!("{}", l);
    }
    match cls {
        None => {
            println!("no violation");
            0
        }
        Some(k) => {
            println!("{:?} {}", k, m);
            let viol = k != Class::Viol || props & (1 << prop) != 0;
            if viol && m == msg {
                println!("REPRODUCED");
                1
            } else {
                println!("another failure than recorded");
                2
            }
        }
    }
}

/// Debugging aid: trace of one seed.
pub fn one(prop: u32, name: &str, seed: u64) {
    let scns = plan::scenarios(prop);
    let s = scns.iter().find(|s| s.name == name).unwrap_or(&scns[0]);
    let (cls, props, m, lines, _) = apart(s, seed, None, true);
    for l in lines {
        println!("{}", l);
    }
    println!("{:?} {:x} {}", cls, props, m);
}
