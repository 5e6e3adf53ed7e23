//! One persistent z3 process per worker thread; every query starts with (reset).
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
}

pub struct Solver {
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    pub stats: SolverStats,
    pub bin: String,
}

pub fn solver_bin() -> String {
    std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".into())
}

impl Solver {
    pub fn new() -> Solver {
        Solver { child: None, stats: SolverStats::default(), bin: solver_bin() }
    }
    fn spawn(&mut self) {
        let mut c = Command::new(&self.bin)
            .args(["-in", "-smt2", "-memory:2500"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let inp = c.stdin.take().unwrap();
        let out = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((c, inp, rx));
    }
    pub fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// Run a full script (declarations, assertions). Returns the verdict and, if sat and `get`
    /// is non-empty, the text of the value list.
    pub fn query(&mut self, script: &str, get: &str, timeout_ms: u64) -> (Res, String) {
        let t0 = Instant::now();
        let r = self.query0(script, get, timeout_ms);
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.secs += dt.as_secs_f64();
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            if dt.as_millis() > 300 {
                let n = self.stats.queries;
                let _ = std::fs::write(
                    format!("{}/{:?}-{}-{:?}-{}.smt2", d, std::thread::current().id(), n, r.0, dt.as_millis()),
                    format!("{}(check-sat)\n", script),
                );
            }
        }
        r
    }
    fn query0(&mut self, script: &str, get: &str, timeout_ms: u64) -> (Res, String) {
        for _attempt in 0..2 {
            if self.child.is_none() {
                self.spawn();
            }
            let mut msg = String::with_capacity(script.len() + 200);
            msg.push_str("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
            msg.push_str(&format!("(set-option :timeout {})\n", timeout_ms));
            msg.push_str(script);
            msg.push_str("(check-sat)\n(echo \"@1\")\n");
            let (_, inp, rx) = self.child.as_mut().unwrap();
            if inp.write_all(msg.as_bytes()).and_then(|_| inp.flush()).is_err() {
                self.kill();
                continue;
            }
            let deadline = Instant::now() + Duration::from_millis(timeout_ms + timeout_ms.clamp(300, 1500));
            let mut res = Res::Unknown;
            let mut err = false;
            loop {
                let left = deadline.saturating_duration_since(Instant::now());
                match rx.recv_timeout(left) {
                    Ok(l) => {
                        let l = l.trim();
                        if l == "@1" {
                            break;
                        } else if l == "sat" {
                            res = Res::Sat;
                        } else if l == "unsat" {
                            res = Res::Unsat;
                        } else if l.starts_with("(error") {
                            err = true;
                            if std::env::var("SYMX_DEBUG").is_ok() {
                                eprintln!("z3: {}\n{}", l, script);
                            }
                        }
                    }
                    Err(_) => {
                        self.kill();
                        return (Res::Unknown, String::new());
                    }
                }
            }
            if err {
                return (Res::Unknown, String::new());
            }
            if res == Res::Sat && !get.is_empty() {
                let (_, inp, rx) = self.child.as_mut().unwrap();
                let m = format!("(get-value ({}))\n(echo \"@2\")\n", get);
                if inp.write_all(m.as_bytes()).and_then(|_| inp.flush()).is_err() {
                    self.kill();
                    return (res, String::new());
                }
                let mut txt = String::new();
                loop {
                    match rx.recv_timeout(Duration::from_millis(5000)) {
                        Ok(l) => {
                            if l.trim() == "@2" {
                                break;
                            }
                            txt.push_str(&l);
                            txt.push('\n');
                        }
                        Err(_) => {
                            self.kill();
                            return (res, String::new());
                        }
                    }
                }
                return (res, txt);
            }
            return (res, String::new());
        }
        (Res::Unknown, String::new())
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

/// Parse `((x0 1.5) (x1 (- 2.25?)) ...)` into (name, text-of-value) pairs.
pub fn parse_pairs(s: &str) -> Vec<(String, String)> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut depth = 0;
    let mut out = vec![];
    let mut start = 0;
    while i < b.len() {
        match b[i] {
            '(' => {
                depth += 1;
                if depth == 2 {
                    start = i + 1;
                }
            }
            ')' => {
                if depth == 2 {
                    let inner: String = b[start..i].iter().collect();
                    let inner = inner.trim();
                    if let Some(p) = inner.find(|c: char| c.is_whitespace()) {
                        out.push((inner[..p].to_string(), inner[p..].trim().to_string()));
                    }
                }
                depth -= 1;
            }
            _ => {}
        }
        i += 1;
    }
    out
}

/// Value of a z3 real numeral as f64 (also `(- v)`, `(/ a b)`, trailing `?`).
pub fn num(s: &str) -> Option<f64> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("(-") {
        let r = r.trim().strip_suffix(')')?;
        return Some(-num(r)?);
    }
    if let Some(r) = s.strip_prefix("(/") {
        let r = r.trim().strip_suffix(')')?.trim();
        // two tokens, either may be parenthesised
        let mut depth = 0;
        let mut cut = None;
        for (i, c) in r.char_indices() {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                c if c.is_whitespace() && depth == 0 => {
                    cut = Some(i);
                    break;
                }
                _ => {}
            }
        }
        let c = cut?;
        return Some(num(&r[..c])? / num(&r[c..])?);
    }
    s.trim_end_matches('?').parse::<f64>().ok()
}
