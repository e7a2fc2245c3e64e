//! Client of the native replayer: one process, one line per run.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Replay {
    _c: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    pub runs: u64,
}
#[derive(Debug, Clone)]
pub struct RR {
    pub status: String,
    pub msg: String,
    pub obs: Vec<u64>,
    pub covers: Vec<String>,
}
impl Replay {
    pub fn new(exe: &str, lib: &str, f: &str) -> Replay {
        let mut c = Command::new(exe)
            .args(["--serve", lib, f])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("replayer");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        Replay { _c: c, i, o, runs: 0 }
    }
    pub fn run(&mut self, case: u64, params: &[u64], tape: &str) -> RR {
        self.runs += 1;
        let p: Vec<String> = params.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(self.i, "{case};{};{tape}", p.join(","));
        let _ = self.i.flush();
        let mut l = String::new();
        if self.o.read_line(&mut l).unwrap_or(0) == 0 {
            return RR { status: "replayer-died".into(), msg: String::new(), obs: vec![], covers: vec![] };
        }
        let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
        RR {
            status: f.first().unwrap_or(&"").to_string(),
            msg: f.get(1).unwrap_or(&"").to_string(),
            obs: f.get(2).unwrap_or(&"").split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect(),
            covers: f.get(3).unwrap_or(&"").split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
        }
    }
}
