#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description file and confirms it in a scratch copy of /repo.

usage: mkseed.py FILE.seed...
A .seed file: 'key: value' header lines (id, property, kit, needs, breaks), then sections
'=== edit <file>' holding python code that edits the text `s`, and '=== demo' holding main.rs / demo.py."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"; K = V + "/tools/kits"; S = V + "/shims"
SH = {"A": ["bounded-static", "imap-types", "imap-codec"], "H": [], "G": [], "T": ["bounded-static", "imap-types"]}
SH["B"] = SH["A"] + ["rustls", "tokio-rustls"]
SH["C"] = SH["B"] + ["argh", "argh-derive", "colored", "rustls-native-certs", "rustls-pemfile", "tracing-subscriber"]
def sub(p, a, b):
    t = open(p).read(); assert a in t, (p, a); open(p, "w").write(t.replace(a, b))
def make(f):
    head, *secs = re.split(r"^=== ", open(f).read(), flags=re.M)
    h = dict(l.split(": ", 1) for l in head.strip().splitlines())
    d = f"{V}/seeded/{h['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/kit")
    k = h["kit"]; kit = d + "/kit"
    shutil.copytree(f"{K}/{k}", kit, dirs_exist_ok=True)
    for s in SH[k]: shutil.copytree(f"{S}/{s}", f"{kit}/{s}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    if k in "BC":
        shutil.copytree(V + "/pki", kit + "/pki"); sub(kit + "/rustls/Cargo.toml", "../../target/vendor", "../vendor")
    if k == "C":
        sub(kit + "/rustls-native-certs/src/lib.rs", "../../../pki/ca.pem", "../../pki/ca.pem")
        p = kit + "/argh/src/lib.rs"; t = open(p).read()
        t = re.sub(r"^pub fn value.*$", 'pub fn value<T: std::str::FromStr + Default>(_: &str) -> T { "config.toml".parse().ok().unwrap_or_default() }', t, flags=re.M); open(p, "w").write(t)
    r = tempfile.mkdtemp(prefix="seed"); repo = r + "/repo"
    subprocess.run(["git", "-c", "advice.detachedHead=false", "clone", "-q", "/repo", repo], check=True)
    for s in secs:
        name, body = s.split("\n", 1); name = name.strip()
        if name == "demo":
            if k == "C": open(kit + "/demo.py", "w").write(body)
            else: os.makedirs(kit + "/src", exist_ok=True); open(kit + "/src/main.rs", "w").write(body)
        else:
            p = f"{repo}/{name.split()[1]}"; ns = {"s": open(p).read(), "re": re}; o = ns["s"]
            exec(body, ns); assert ns["s"] != o, "edit changed nothing"; open(p, "w").write(ns["s"])
    patch = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    shutil.copy(f"{K}/demo_{'py' if k == 'C' else 'rs'}.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # the lock file, from a first build
    lockdir = kit + ("/proxy" if k == "C" else "")
    lk = f"/tmp/lock.{k}"
    if os.path.exists(lk): shutil.copy(lk, lockdir + "/Cargo.lock")
    else:
        w = tempfile.mkdtemp(); shutil.copytree(kit, w, dirs_exist_ok=True); wl = w + ("/proxy" if k == "C" else "")
        if k in "BC":
            os.makedirs(w + "/vendor"); subprocess.run(f"tar xzf ~/.cargo/registry/cache/*/rustls-0.23.46.crate -C {w}/vendor", shell=True, check=True)
        t = open(wl + "/Cargo.toml.in").read().replace("@REPO@", "/repo"); open(wl + "/Cargo.toml", "w").write(t)
        if not os.path.exists(wl + "/src") and k != "C": os.makedirs(wl + "/src")
        subprocess.run(["cargo", "generate-lockfile", "--offline", "--manifest-path", wl + "/Cargo.toml"], check=True, env={**os.environ, "RUSTUP_TOOLCHAIN": "stable"})
        shutil.copy(wl + "/Cargo.lock", lk); shutil.copy(lk, lockdir + "/Cargo.lock"); shutil.rmtree(w)
    # confirm, with the folder laid elsewhere
    e = tempfile.mkdtemp(prefix="laid"); shutil.copytree(d, e + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    def demo():
        p = subprocess.run(["bash", e + "/x/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300); return p.returncode, (p.stdout + p.stderr)[-1500:]
    bad = demo(); subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True); good = demo()
    ok = good[0] == 0 and bad[0] not in (0, 2) and subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode == 0
    print(h["id"], "OK" if ok else "BAD", "| patched:", bad[0], [l for l in bad[1].splitlines() if l.strip() and "RUST_BACKTRACE" not in l and "at /" not in l][:3], "" if good[0] == 0 else f"| unpatched: {good[0]} {good[1][-300:]}", flush=True)
    shutil.rmtree(e); shutil.rmtree(r)
    if not ok: (shutil.rmtree(f"/tmp/bad.{h['id']}", ignore_errors=True), shutil.move(d, f"/tmp/bad.{h['id']}"))
for f in sys.argv[1:]: make(f)
