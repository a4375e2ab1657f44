//! Which of some statements the real compiler accepts, each judged by itself.
use std::process::Command;

/// Writes a crate with one statement per line into the check's work directory and asks `cargo check`.  Every
/// line that an error points at is rejected.
pub fn verdicts(id: &str, lines: &[(String, bool)]) -> Vec<(String, bool)> {
    let here = std::env::current_exe().unwrap();
    // .work/<id>/native/debug/<id>
    let dir = here.ancestors().nth(3).unwrap().join("reject");
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("Cargo.toml"), format!(
        "[package]\nname = \"reject-{id}\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[dependencies]\nwhippyunits = {{ path = \"/repo\" }}\n\
         whippyunits-core = {{ path = \"/repo/whippyunits-core\" }}\nculit = \"0.6\"\n[workspace]\n")).unwrap();
    std::fs::copy("/repo/Cargo.lock", dir.join("Cargo.lock")).unwrap();
    let mut left: Vec<usize> = (0..lines.len()).collect();
    let mut bad = vec![];
    // errors of one compiler phase hide those of later ones: repeat on what is left
    for _ in 0..8 {
        let mut src = String::from("#![allow(unused, path_statements)]\n");
        for (k, i) in left.iter().enumerate() {
            src += &format!("fn f{k}() {{ {} }}\n", lines[*i].0);
        }
        src += "fn main() {}\n";
        std::fs::write(dir.join("src/main.rs"), src).unwrap();
        let o = Command::new("cargo").args(["check", "--offline", "--quiet", "--message-format", "short"])
            .arg("--manifest-path").arg(dir.join("Cargo.toml")).arg("--target-dir").arg(dir.join("target"))
            .env("RUSTFLAGS", "-Awarnings").env("CARGO_TERM_COLOR", "never").output().expect("cargo check");
        let text = String::from_utf8_lossy(&o.stderr).into_owned();
        if o.status.success() { break }
        let mut hit: Vec<usize> = text.lines().filter_map(|l| {
            let r = l.strip_prefix("src/main.rs:")?;
            if !l.contains("error") { return None }
            r.split(':').next()?.parse::<usize>().ok()?.checked_sub(2)
        }).filter(|k| *k < left.len()).collect();
        hit.sort();
        hit.dedup();
        assert!(!hit.is_empty(), "cargo check failed elsewhere: {text}");
        for k in hit.iter().rev() { bad.push(left.remove(*k)); }
    }
    (0..lines.len()).map(|i| (lines[i].0.clone(), !bad.contains(&i))).collect()
}
