//! Runs the command line tool, in a scratch directory.
use crate::rec::Flags;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn tool() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("target/cli/release/layout")
}
/// A directory of its own that goes with the value.
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = PathBuf::from(format!("{}/mc-{}-{}", base, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn command(dir: &Path, args: &[String]) -> Command {
    let mut c = Command::new(tool());
    c.args(args).current_dir(dir).stdin(Stdio::null()).env_clear();
    c
}
pub fn run(dir: &Path, args: &[String]) -> Output {
    command(dir, args).output().expect("the tool does not start")
}
pub fn flags(f: Flags, ast: bool, short: bool) -> Vec<String> {
    let mut v = Vec::new();
    if f.debug {
        v.push(if short { "-d" } else { "--debug" }.to_string());
    }
    if f.no_layout {
        v.push("--no-layout".into());
    }
    if f.no_opt {
        v.push("--no-optz".into());
    }
    if ast {
        v.push(if short { "-a" } else { "--ast" }.to_string());
    }
    v
}
