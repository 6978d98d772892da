//! The C interface is a cdylib: its sources are copied here to be linked into
//! the simulator, with a module that uses it the way a C program does.
use std::fs;
use std::path::{Path, PathBuf};

fn put(path: &Path, text: &[u8]) {
    if fs::read(path).ok().as_deref() != Some(text) {
        fs::write(path, text).expect("write generated source");
    }
}

fn copy(from: &Path, to: &Path, names: &mut Vec<PathBuf>) {
    fs::create_dir_all(to).expect("gen directory");
    for e in fs::read_dir(from).expect("sources of the C interface").flatten() {
        let (path, dest) = (e.path(), to.join(e.file_name()));
        if path.is_dir() {
            copy(&path, &dest, names);
            continue;
        }
        if path.extension().map_or(true, |x| x != "rs") || names.contains(&dest) {
            continue;
        }
        let mut text = fs::read(&path).expect("source");
        if dest == names[0].with_file_name("lib.rs") {
            text.extend_from_slice(b"\n#[path = \"../src/cuser.rs\"]\npub mod cuser;\nmod cmenu;\n");
        }
        put(&dest, &text);
        names.push(dest);
    }
}

/// removes what is no longer in the sources
fn prune(dir: &Path, names: &[PathBuf]) {
    for e in fs::read_dir(dir).expect("gen directory").flatten() {
        if e.path().is_dir() {
            prune(&e.path(), names);
        } else if !names.contains(&e.path()) {
            let _ = fs::remove_file(e.path());
        }
    }
}

fn main() {
    let src = Path::new("/repo/remote-ffi/src");
    let gen = Path::new(env!("CARGO_MANIFEST_DIR")).join("gen");
    let mut names = vec![gen.join("ffi.rs")];
    copy(src, &gen, &mut names);
    let ffi = ffigen::SourceBuilder::generate("/repo/remote-ffi").expect("generate ffi").source();
    put(&gen.join("ffi.rs"), ffi.as_bytes());
    // where the entries of menus are iterated over
    let mut cmenu = String::new();
    println!("cargo:rustc-check-cfg=cfg(menu_items)");
    for n in &names {
        let text = String::from_utf8_lossy(&fs::read(n).expect("source")).to_string();
        if text.contains("pub type MenuIterator =") {
            let rel = n.strip_prefix(&gen).unwrap().with_extension("");
            let mut path: Vec<String> = rel.iter().map(|x| x.to_string_lossy().to_string()).filter(|x| x != "mod" && x != "lib").collect();
            path.insert(0, "crate".into());
            cmenu = format!("#[allow(unused_imports)]\npub use {}::MenuIterator;\n", path.join("::"));
            println!("cargo:rustc-cfg=menu_items");
        }
    }
    let path = gen.join("cmenu.rs");
    put(&path, cmenu.as_bytes());
    names.push(path);
    prune(&gen, &names);
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/remote-ffi/src");
    println!("cargo:rerun-if-changed=/repo/remote-ffi/ffigen.toml");
    println!("cargo:rerun-if-changed=gen");
}
