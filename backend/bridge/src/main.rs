//! bridge <lang> [node host.js bundle.js]: the functions a backend module exports to JavaScript,
//! over JSON lines; with a host, commands are forwarded to it and its calls of the backend served.
use neon::Val;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{self, AssertUnwindSafe};
use std::process::{ChildStdin, ChildStdout, Command, Stdio};

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

/// what was standard output; whatever the backend prints goes nowhere
fn own_stdout() -> std::fs::File {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let fd = dup(1);
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(fd)
    }
}

struct Backend {
    funs: BTreeMap<String, neon::Fun>,
    objects: BTreeMap<u64, Val>,
    next: u64,
}

impl Backend {
    fn call(&mut self, c: &Value) -> Value {
        let f = match self.funs.get(c["f"].as_str().unwrap()) {
            Some(f) => *f,
            None => return json!({"throw": "TypeError: backend[method] is not a function"}),
        };
        let mut args = Vec::new();
        for a in c["a"].as_array().unwrap() {
            args.push(if let Some(n) = a.get("$o") {
                match self.objects.get(&n.as_u64().unwrap()) {
                    Some(o) => o.clone(),
                    None => return json!({"throw": "internal: no such object"}),
                }
            } else if let Some(n) = a.get("$cb") {
                Val::Callback(n.as_u64().unwrap())
            } else {
                Val::Json(a.clone())
            });
        }
        let r = panic::catch_unwind(AssertUnwindSafe(|| neon::vm::call(args, |c| f(c))));
        let mut answer = match r {
            Err(_) => json!({"throw": PANIC.with(|p| format!("panicked at {}", p.borrow()))}),
            Ok(Err(e)) => json!({"throw": e.0}),
            Ok(Ok(Val::Json(v))) => json!({"ok": v}),
            Ok(Ok(o)) => {
                self.next += 1;
                self.objects.insert(self.next, o);
                json!({"ok": {"$o": self.next}})
            }
        };
        let called: Vec<Value> = neon::CALLED.with(|c| {
            c.borrow_mut().drain(..).map(|(n, r)| match r {
                Ok(v) => json!([n, null, v]),
                Err(e) => json!([n, e, null]),
            }).collect()
        });
        if !called.is_empty() {
            answer["called"] = called.into();
        }
        answer
    }
}

struct Host {
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Host {
    fn send(&mut self, v: &Value) {
        let mut s = v.to_string();
        s.push('\n');
        self.to.write_all(s.as_bytes()).unwrap();
    }
    /// serves calls until the command is done
    fn run(&mut self, b: &mut Backend, cmd: Option<&Value>) -> Value {
        if let Some(c) = cmd {
            self.send(c);
        }
        loop {
            let mut line = String::new();
            if self.from.read_line(&mut line).unwrap() == 0 {
                return json!({"gone": true});
            }
            let v: Value = serde_json::from_str(&line).unwrap();
            if v.get("call").is_some() {
                let r = b.call(&v["call"]);
                self.send(&r);
            } else {
                return v["done"].clone();
            }
        }
    }
}

fn main() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{}: {}", loc, msg));
    }));
    let mut out = own_stdout();
    let args: Vec<String> = std::env::args().collect();
    let module = match args[1].as_str() {
        "rs" => rust_backend::neon_module(),
        _ => fall_backend::neon_module(),
    };
    let mut b = Backend { funs: module.0.into_iter().collect(), objects: BTreeMap::new(), next: 0 };
    let mut host = None;
    let mut keep = 0;
    if args.len() > 2 {
        let mut child = Command::new(&args[2]).args(&args[3..]).arg(&args[1])
            .stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let mut h = Host { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()) };
        let r = h.run(&mut b, None);
        writeln!(out, "{}", r).unwrap();
        keep = b.next;
        host = Some(h);
    }
    let stdin = std::io::stdin();
    let mut line = String::new();
    while { line.clear(); stdin.lock().read_line(&mut line).unwrap_or(0) > 0 } {
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = if v.get("call").is_some() {
            b.call(&v["call"])
        } else if v.get("forget").is_some() {
            b.objects.retain(|&k, _| k <= keep);
            json!({"ok": null})
        } else {
            host.as_mut().unwrap().run(&mut b, Some(&v))
        };
        let mut s = r.to_string();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
