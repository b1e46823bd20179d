//! rsasl-conf run IN.ndjson OUT.ndjson: execute the scenarios and write one trace per line.
//! rsasl-conf draws P N OUT.ndjson: make sessions draw random values, as process P: about N for each kind and mechanism.
mod cb;
mod custom;
mod exec;
mod gss;
mod props;
mod refscram;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(30);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "draws" {
        return exec::draws(&a[2], a[3].parse().expect("number"), &a[4]);
    }
    if a.len() != 4 || a[1] != "run" {
        eprintln!("usage: rsasl-conf run IN OUT");
        std::process::exit(2);
    }
    let lines: Vec<String> = BufReader::new(File::open(&a[2]).expect("input"))
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .collect();
    if std::env::var_os("CONF_PANICS").is_none() {
        // panics of the code under test are recorded; those of the harness itself end the process
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            let own = ["scenario:", "src/exec.rs", "src/gss.rs", "src/main.rs", "src/cb.rs", "src/custom.rs", "src/props.rs", "src/refscram.rs"];
            if own.iter().any(|x| s.contains(x)) {
                eprintln!("{s}");
                std::process::exit(2);
            }
        }));
    }
    let out = Mutex::new(BufWriter::new(File::create(&a[3]).expect("output")));
    let next = AtomicUsize::new(0);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let current: Vec<Mutex<Option<(String, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let left = AtomicUsize::new(workers);
    std::thread::scope(|sc| {
        for (w, slot) in current.iter().enumerate() {
            let (lines, next, out, left, outname) = (&lines, &next, &out, &left, &a[3]);
            sc.spawn(move || {
                let curname = format!("{outname}.cur{w}");
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(l) = lines.get(i) else { break };
                    let spec: Value = serde_json::from_str(l).expect("scenario: bad JSON");
                    let id = spec["id"].as_str().unwrap_or("").to_string();
                    // if the process dies, the driver learns what was running
                    std::fs::write(&curname, &id).expect("write");
                    *slot.lock().unwrap() = Some((id, Instant::now()));
                    let t = exec::run(&spec);
                    *slot.lock().unwrap() = None;
                    let mut o = out.lock().unwrap();
                    serde_json::to_writer(&mut *o, &t).expect("write");
                    o.write_all(b"\n").expect("write");
                }
                let _ = std::fs::remove_file(&curname);
                left.fetch_sub(1, Ordering::SeqCst);
            });
        }
        while left.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for c in &current {
                let g = c.lock().unwrap();
                if let Some((id, t)) = &*g {
                    if t.elapsed() > HANG {
                        let mut o = out.lock().unwrap();
                        let _ = writeln!(o, "{}", json!({"id": id, "hang": true}));
                        let _ = o.flush();
                        std::process::exit(3);
                    }
                }
            }
        }
    });
    out.into_inner().unwrap().flush().expect("flush");
}
