use std::{env, fs, path::Path};

fn main() {
    let repo = Path::new("/repo/distro");
    let out = env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("distro");
    let svc = to.join("trust-graph-service");
    fs::create_dir_all(to.join("src")).unwrap();
    fs::create_dir_all(&svc).unwrap();
    for f in fs::read_dir(repo.join("src")).unwrap().flatten() {
        fs::copy(f.path(), to.join("src").join(f.file_name())).unwrap();
    }
    for f in ["Config.toml", "init_certs.json"] {
        fs::copy(repo.join(f), svc.join(f)).unwrap();
    }
    fs::write(svc.join("trust-graph.wasm"), b"trust-graph").unwrap();
    fs::write(svc.join("sqlite3.wasm"), b"sqlite3").unwrap();
    let toml = fs::read_to_string(repo.join("Cargo.toml")).unwrap();
    let v = toml.lines().find_map(|l| l.strip_prefix("version = ")).unwrap_or("\"\"");
    fs::write(Path::new(&out).join("built.rs"), format!("pub const PKG_VERSION: &str = {v};\n")).unwrap();
    println!("cargo:rerun-if-changed=/repo/distro");
}
