//! Generates the table of the harnesses for the replayer.
fn main() {
    let mut out = String::from("pub const HARNESSES: &[(&str, fn())] = &[\n");
    let mut files: Vec<_> = std::fs::read_dir("src").unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    for p in files {
        println!("cargo:rerun-if-changed={}", p.display());
        let m = p.file_stem().unwrap().to_str().unwrap().to_owned();
        if m == "replay" {
            continue;
        }
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(n) = l.strip_prefix("pub fn h_") {
                let n = n.split('(').next().unwrap();
                out.push_str(&format!("    (\"h_{n}\", {m}::h_{n} as fn()),\n"));
            }
        }
    }
    out.push_str("];\n");
    std::fs::write(format!("{}/list.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
