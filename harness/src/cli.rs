//! The solver's command line program, run in a scratch directory.

use crate::engine::scratch;
use crate::inst::Inst;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A directory of its own for one case, removed at the end.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new(tag: &str) -> Self {
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = scratch().join(format!("{}-{}-{}", tag, std::process::id(), n));
        std::fs::create_dir_all(&p).expect("cannot create scratch directory");
        Dir(p)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn write(&self, name: &str, text: &str) -> PathBuf {
        let p = self.path(name);
        std::fs::write(&p, text).expect("cannot write scratch file");
        p
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Run {
    /// None when it had to be stopped.
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub wall: f64,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn tail(&self) -> String {
        let lines: Vec<&str> = self.stderr.lines().rev().take(4).collect();
        lines.into_iter().rev().collect::<Vec<_>>().join(" | ")
    }
}

/// Runs the program with `args` in `dir`; `env` is added to an otherwise fixed environment.
pub fn run(dir: &Path, args: &[String], env: &[(String, String)], seconds: u64) -> Run {
    run_program(&std::env::var("VH_BIN").expect("VH_BIN names the solver's program"), dir, args, env, seconds)
}

pub fn run_program(program: &str, dir: &Path, args: &[String], env: &[(String, String)], seconds: u64) -> Run {
    let mut cmd = Command::new(program);
    cmd.args(args)
        .current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .envs(env.iter().map(|(k, v)| (k.as_str(), v.as_str())))
        .stdin(Stdio::null())
        .stdout(Stdio::from(std::fs::File::create(dir.join(".stdout")).unwrap()))
        .stderr(Stdio::from(std::fs::File::create(dir.join(".stderr")).unwrap()));
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let begun = Instant::now();
    let mut child = cmd.spawn().expect("cannot start the solver's program");
    let code = loop {
        match child.try_wait().expect("wait") {
            Some(status) => break Some(status.code().unwrap_or(-1)),
            None if begun.elapsed().as_secs() >= seconds => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let read = |name: &str| {
        let mut bytes = Vec::new();
        if let Ok(f) = std::fs::File::open(dir.join(name)) {
            let _ = f.take(4 << 20).read_to_end(&mut bytes);
        }
        String::from_utf8_lossy(&bytes).to_string()
    };
    Run { code, stdout: read(".stdout"), stderr: read(".stderr"), wall: begun.elapsed().as_secs_f64() }
}

/// The instance as a plain CVRPLIB file.
pub fn cvrplib(inst: &Inst) -> String {
    let n = inst.dim();
    let mut s = format!("NAME : generated\nCOMMENT : by the harness\nTYPE : CVRP\nDIMENSION : {}\n", n);
    match &inst.matrix {
        Some(_) => s.push_str("EDGE_WEIGHT_TYPE : EXPLICIT\nEDGE_WEIGHT_FORMAT : LOWER_ROW\n"),
        None => s.push_str("EDGE_WEIGHT_TYPE : EUC_2D\n"),
    }
    s.push_str(&format!("CAPACITY : {}\n", inst.cap));
    if let Some(rows) = &inst.matrix {
        s.push_str("EDGE_WEIGHT_SECTION\n");
        for row in rows {
            s.push_str(&row.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" "));
            s.push('\n');
        }
    }
    s.push_str("NODE_COORD_SECTION\n");
    for (i, node) in inst.nodes.iter().enumerate() {
        s.push_str(&format!("{} {} {}\n", i + 1, node.0, node.1));
    }
    s.push_str("DEMAND_SECTION\n");
    for (i, node) in inst.nodes.iter().enumerate() {
        s.push_str(&format!("{} {}\n", i + 1, node.2));
    }
    s.push_str("DEPOT_SECTION\n1\n-1\nEOF\n");
    s
}
