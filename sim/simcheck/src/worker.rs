//! Pool of simulated processes (fork servers).
use simtypes::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Proc {
    _child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

pub struct Workers {
    dir: String,
    procs: HashMap<(String, Vec<String>), Proc>,
}

fn bin_name(b: &Bin) -> &'static str {
    match b {
        Bin::Http => "sim-http",
        Bin::Pica => "sim-pica",
        Bin::Lib => "sim-lib",
    }
}

impl Workers {
    pub fn new(dir: &str) -> Self {
        Workers { dir: dir.into(), procs: HashMap::new() }
    }
    pub fn run(&mut self, plan: &Plan) -> Result<History, String> {
        let args = match &plan.start {
            Some(s) => s.args.clone(),
            None if plan.pcapng && plan.bin != Bin::Lib => vec!["--pcapng-dir".into(), "/simfs".into()],
            None => vec![],
        };
        let key = (bin_name(&plan.bin).to_string(), args);
        // many ways to start it: keep a few of the processes
        if self.procs.len() > 24 && !self.procs.contains_key(&key) {
            self.procs.clear();
        }
        for attempt in 0..2 {
            if !self.procs.contains_key(&key) {
                let mut cmd = Command::new(format!("{}/{}", self.dir, key.0));
                cmd.args(&key.1);
                let mut child = cmd
                    .env("RUST_LOG", "off")
                    .env("RUST_BACKTRACE", "0")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .map_err(|e| format!("cannot start {}/{}: {e}", self.dir, key.0))?;
                let tx = child.stdin.take().unwrap();
                let rx = BufReader::new(child.stdout.take().unwrap());
                self.procs.insert(key.clone(), Proc { _child: child, tx, rx });
            }
            let p = self.procs.get_mut(&key).unwrap();
            let mut line = serde_json::to_string(plan).unwrap();
            line.push('\n');
            let mut ans = String::new();
            let ok = p.tx.write_all(line.as_bytes()).is_ok()
                && p.tx.flush().is_ok()
                && p.rx.read_line(&mut ans).map_or(false, |n| n > 0);
            if ok {
                return serde_json::from_str(&ans).map_err(|e| format!("bad history: {e}"));
            }
            let mut dead = self.procs.remove(&key).unwrap();
            if attempt == 1 {
                // ended before it came to start the runtime
                if let (Some(_), Ok(Some(code))) = (&plan.start, dead._child.wait().map(|s| s.code())) {
                    return Ok(History { outcome: format!("exit:{code}"), ..Default::default() });
                }
                return Err("simulated process died outside the simulation".into());
            }
        }
        unreachable!()
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}
