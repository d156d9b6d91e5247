//! Runs scripts in child processes so that aborts, hangs and memory
//! exhaustion in the code under test are recorded as events, not errors.
use crate::json::J;
use std::fs::{self, File, OpenOptions};
use std::io::{BufRead, BufReader, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const BLOCK: usize = 64;
/// After a few hangs the rest is not worth waiting for: the run has failed.
static HANGS: AtomicUsize = AtomicUsize::new(0);

/// `prog scripts out nproc [seconds-per-script]`
pub fn main(run_one: fn(&J) -> String, list: fn() -> String) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("list") {
        println!("{}", list());
        return;
    }
    if args.get(1).map(String::as_str) == Some("--worker") {
        let at = args.get(6).map(|x| x.parse().unwrap());
        worker(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), at, run_one);
        return;
    }
    let scripts = args[1].clone();
    let out = args[2].clone();
    let nproc: usize = args[3].parse().unwrap();
    let limit = Duration::from_secs(args.get(4).map_or(20, |s| s.parse().unwrap()));
    let lines: Arc<Vec<String>> =
        Arc::new(BufReader::new(File::open(&scripts).unwrap()).lines().map(Result::unwrap).filter(|l| !l.is_empty()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let sink = Arc::new(Mutex::new(File::create(&out).unwrap()));
    let mut hs = Vec::new();
    for t in 0..nproc {
        let (lines, next, sink, scripts, out) = (lines.clone(), next.clone(), sink.clone(), scripts.clone(), out.clone());
        hs.push(std::thread::spawn(move || {
            loop {
                if HANGS.load(Ordering::SeqCst) >= 4 {
                    break;
                }
                let a = next.fetch_add(BLOCK, Ordering::SeqCst);
                if a >= lines.len() {
                    break;
                }
                let b = (a + BLOCK).min(lines.len());
                let part = format!("{out}.part{t}");
                let mut from = a;
                while from < b && HANGS.load(Ordering::SeqCst) < 4 {
                    from = block(&scripts, &part, from, b, limit, &lines, &sink);
                }
                let _ = fs::remove_file(&part);
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
}

/// Runs scripts from..to in one child; returns where to continue.
fn block(scripts: &str, part: &str, from: usize, to: usize, limit: Duration, lines: &[String], sink: &Mutex<File>) -> usize {
    File::create(part).unwrap();
    // Scripts are written one per line, without empty lines.
    let start: usize = lines[..from].iter().map(|l| l.len() + 1).sum();
    let me = std::env::current_exe().unwrap();
    let mut child = Command::new(me)
        .args(["--worker", scripts, part, &from.to_string(), &to.to_string(), &start.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut last = (0, Instant::now());
    let mut why = "";
    let mut beyond = false;
    let ok = loop {
        if let Some(st) = child.try_wait().unwrap() {
            beyond = st.code() == Some(crate::alloc::BEYOND_MEMORY);
            break st.success();
        }
        let size = fs::metadata(part).map_or(0, |m| m.len());
        if size != last.0 {
            last = (size, Instant::now());
        } else if last.1.elapsed() > limit {
            why = "hang";
            HANGS.fetch_add(1, Ordering::SeqCst);
            let _ = child.kill();
            let _ = child.wait();
            break false;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let text = fs::read_to_string(part).unwrap();
    let complete = text.rfind('\n').map_or("", |i| &text[..=i]);
    let done = complete.lines().count();
    let mut s = sink.lock().unwrap();
    s.write_all(complete.as_bytes()).unwrap();
    if ok && from + done == to {
        return to;
    }
    // The script after the last complete trace killed the process.
    let at = from + done;
    if at < to {
        let j = J::parse(&lines[at]);
        let mut o = String::from("{\"id\":");
        j.get("id").write(&mut o);
        o.push_str(",\"sub\":");
        j.get("sub").write(&mut o);
        let w = if why.is_empty() { "abort" } else { why };
        let ev = if beyond { String::new() } else { format!("{{\"op\":\"{w}\"}}") };
        o.push_str(&format!(",\"L\":{{\"k\":\"prim\"}},\"ev\":[{ev}]}}\n"));
        s.write_all(o.as_bytes()).unwrap();
    }
    at + 1
}

fn worker(scripts: &str, part: &str, from: usize, to: usize, at: Option<u64>, run_one: fn(&J) -> String) {
    if std::env::var("VH_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})) };
    let mut f = BufReader::new(File::open(scripts).unwrap());
    let skip = match at {
        Some(at) => f.seek(SeekFrom::Start(at)).map(|_| 0).unwrap(),
        None => from,
    };
    let mut out = OpenOptions::new().append(true).open(part).unwrap();
    for l in f.lines().map(Result::unwrap).filter(|l| !l.is_empty()).skip(skip).take(to - from) {
        let j = J::parse(&l);
        let s = run_one(&j);
        out.write_all(s.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
}
