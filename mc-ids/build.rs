//! Copies the sources under test into OUT_DIR with every use of `std::sync` (and `core::sync`)
//! redirected to `crate::ctl`, whose atomics and locks are scheduling points of the explorer.
//! Nothing else of the sources is changed.
use std::path::{Path, PathBuf};

/// Flattens a use tree into (path, alias) pairs.
fn flatten(prefix: &str, t: &str, out: &mut Vec<(String, Option<String>)>) {
    let t = t.trim();
    if t.is_empty() { return; }
    if let Some(i) = t.find('{') {
        let head = t[..i].trim();
        let inner = t[i + 1..t.rfind('}').unwrap()].to_string();
        let p = format!("{prefix}{}", head.replace(' ', ""));
        let (mut depth, mut start) = (0, 0);
        let b = inner.as_bytes();
        for k in 0..=b.len() {
            if k == b.len() || (b[k] == b',' && depth == 0) { flatten(&p, &inner[start..k], out); start = k + 1; continue; }
            match b[k] { b'{' => depth += 1, b'}' => depth -= 1, _ => {} }
        }
        return;
    }
    let (path, alias) = match t.split_once(" as ") { Some((p, a)) => (p.trim(), Some(a.trim().to_string())), None => (t, None) };
    if path == "self" { out.push((prefix.trim_end_matches("::").to_string(), alias)); } else { out.push((format!("{prefix}{path}"), alias)); }
}
fn redirect(p: &str) -> String {
    for s in ["std::sync", "core::sync", "::std::sync", "::core::sync", "alloc::sync"] {
        if p == s || p.starts_with(&format!("{s}::")) { return format!("crate::ctl::sync{}", &p[s.len()..]); }
    }
    for m in ["hint", "thread"] {
        for s in [format!("std::{m}"), format!("core::{m}"), format!("::std::{m}")] {
            if p == s || p.starts_with(&format!("{s}::")) { return format!("crate::ctl::{m}{}", &p[s.len()..]); }
        }
    }
    p.to_string()
}
fn uncomment(s: &str) -> String { s.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n") }
/// Rewrites one source text.
fn rewrite(src: &str) -> String {
    let mut o = String::new();
    let mut rest = src;
    // use declarations
    loop {
        let pos = rest.match_indices("use ").map(|(i, _)| i).find(|&i| {
            let before = &rest[..i];
            let line = before.rsplit('\n').next().unwrap().trim();
            line.is_empty() || line == "pub" || line.starts_with("pub(") || (line.starts_with("#[") && line.ends_with(']'))
        });
        let Some(i) = pos else { o.push_str(rest); break };
        let Some(j) = rest[i..].find(';') else { o.push_str(rest); break };
        let decl = &rest[i + 4..i + j];
        o.push_str(&rest[..i]);
        if ["sync", "hint", "thread"].iter().any(|m| decl.contains(m)) {
            let decl = &uncomment(decl);
            let line = rest[..i].rsplit('\n').next().unwrap().to_string();
            let attr_before = rest[..i].trim_end().ends_with(']') || line.trim().starts_with("#[");
            let mut v = vec![];
            flatten("", decl, &mut v);
            let flat: Vec<String> = v.into_iter().map(|(p, a)| format!("{}{}", redirect(&p), a.map(|a| format!(" as {a}")).unwrap_or_default())).collect();
            // keep a single declaration, so that attributes and visibility still apply
            if attr_before || flat.len() == 1 { o.push_str(&format!("use {{{}}};", flat.join(", "))); } else { o.push_str(&format!("use {{{}}};", flat.join(", "))); }
        } else { o.push_str(&rest[i..i + j + 1]); }
        rest = &rest[i + j + 1..];
    }
    // remaining inline paths
    for s in ["::std::sync::", "::core::sync::", "std::sync::", "core::sync::"] { o = o.replace(s, "crate::ctl::sync::"); }
    for m in ["hint", "thread"] { for s in [format!("::std::{m}::"), format!("std::{m}::"), format!("core::{m}::")] { o = o.replace(&s, &format!("crate::ctl::{m}::")); } }
    o
}
fn strip_inner(src: &str) -> String {
    let mut o = String::new();
    let mut head = true;
    for l in src.lines() {
        let t = l.trim_start();
        if head && (t.starts_with("//!") || t.starts_with("#![")) { o.push('\n'); continue; }
        if !t.is_empty() && !t.starts_with("//") { head = false; }
        o.push_str(l); o.push('\n');
    }
    o
}
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        if p.is_dir() { if e.file_name() != "tests" { copy(&p, &to.join(e.file_name())); } continue; }
        if p.extension().map(|x| x == "rs") != Some(true) { continue; }
        println!("cargo:rerun-if-changed={}", p.display());
        std::fs::write(to.join(e.file_name()), rewrite(&std::fs::read_to_string(&p).unwrap())).unwrap();
    }
}
fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let _ = std::fs::remove_dir_all(out.join("imap"));
    copy(Path::new("/repo/src"), &out.join("imap"));
    // crate root: becomes a module, so `crate::` paths are redirected and modules get absolute paths
    let imap = out.join("imap");
    fix_module(&imap, &imap);
    println!("cargo:rerun-if-changed=/repo/src");
    let t = std::fs::read_to_string("/repo/tag-generator/src/lib.rs").unwrap();
    println!("cargo:rerun-if-changed=/repo/tag-generator/src/lib.rs");
    let t = strip_inner(&rewrite(&t)).replace("cfg(test)", "cfg(any())");
    std::fs::write(out.join("handle_ctl.rs"), strip_inner(&std::fs::read_to_string(imap.join("handle.rs")).unwrap())).unwrap();
    std::fs::write(out.join("tags_debug.rs"), t.replace("debug_assertions", "all()")).unwrap();
    std::fs::write(out.join("tags_release.rs"), t.replace("debug_assertions", "any()")).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
fn fix_module(root: &Path, dir: &Path) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() { fix_module(root, &p); continue; }
        let is_root = p == root.join("lib.rs");
        let s = std::fs::read_to_string(&p).unwrap();
        let mut s = s.replace("crate::ctl::", "\u{1}").replace("pub(crate)", "\u{2}").replace("crate::", "crate::imap_next::").replace('\u{1}', "crate::ctl::").replace('\u{2}', "pub(crate)");
        s = s.replace("use crate::imap_next::{", "use crate::imap_next::{");
        s = s.replace("cfg(test)", "cfg(any())").replace("cfg(doctest)", "cfg(any())");
        if is_root {
            s = strip_inner(&s);
            // README doc test include
            s = s.lines().filter(|l| !l.contains("include_str!(\"../README.md\")")).collect::<Vec<_>>().join("\n");
            let mut o = String::new();
            for l in s.lines() {
                let t = l.trim();
                let m = t.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
                if let Some(name) = m.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
                    let f = if root.join(format!("{name}.rs")).exists() { root.join(format!("{name}.rs")) } else { root.join(name).join("mod.rs") };
                    o.push_str(&format!("#[path = {:?}] {t}\n", f.display().to_string()));
                } else { o.push_str(l); o.push('\n'); }
            }
            s = o;
        }
        std::fs::write(&p, s).unwrap();
    }
}
