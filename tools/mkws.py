#!/usr/bin/env python3
"""Generate an offline cargo workspace over /repo's sources.

Every member's `src` (and `tests`) is a symlink into /repo; only the manifests are generated:
dependencies that are not available offline are redirected to /verif/shims.
usage: mkws.py OUTDIR MEMBER...   (members: crate names of /repo and harness crates of /verif/harness)
Only the members given and what they depend on are put in the workspace.
"""
import os, sys, tomllib, json
REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = os.path.join(VERIF, "shims")
HARN = os.path.join(VERIF, "harness")
shim_names = {}
for d in os.listdir(SHIMS):
    with open(f"{SHIMS}/{d}/Cargo.toml", "rb") as f:
        shim_names[tomllib.load(f)["package"]["name"]] = d

def tv(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, list): return "[" + ", ".join(tv(x) for x in v) + "]"
    if isinstance(v, dict): return "{ " + ", ".join(f"{json.dumps(k)} = {tv(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)

def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src: return
        os.unlink(dst)
    os.symlink(src, dst)

def write(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    with open(p, "w") as f: f.write(s)

def main():
    out, *members = sys.argv[1:]
    dev = os.environ.get("VP_DEV") == "1"
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    wsdeps = root["workspace"]["dependencies"]
    edition = root["workspace"]["package"].get("edition", "2024")
    os.makedirs(f"{out}/crates", exist_ok=True)
    used = set()
    done, todo = {}, list(members)
    def redirect(name, spec):
        if isinstance(spec, str): spec = {"version": spec}
        spec = dict(spec)
        if spec.pop("workspace", False):
            base = wsdeps[name]
            base = {"version": base} if isinstance(base, str) else dict(base)
            feats = list(dict.fromkeys(base.get("features", []) + spec.get("features", [])))
            base.update(spec)
            if feats: base["features"] = feats
            spec = base
        pkg = spec.get("package", name)
        if "path" in spec:
            sib = os.path.basename(spec["path"].rstrip("/"))
            spec["path"] = f"../{sib}"
            todo.append(sib)
        elif pkg in shim_names:
            for k in ("git", "rev", "branch", "tag", "version", "default-features"): spec.pop(k, None)
            spec["path"] = f"{SHIMS}/{shim_names[pkg]}"
            used.add(pkg)
        return spec
    while todo:
        m = todo.pop()
        if m in done: continue
        src = f"{REPO}/crates/{m}"
        if not os.path.isdir(src): src = f"{HARN}/{m}"
        man = tomllib.load(open(f"{src}/Cargo.toml", "rb"))
        done[m] = src
        pk = man["package"]
        lines = ["[package]", f'name = {tv(pk["name"])}', 'version = "0.0.0"', f'edition = {tv(edition)}', "autobenches = false", "autoexamples = false"]
        if not dev: lines.append("autotests = false")
        for k in ("autobins",):
            if k in pk: lines.append(f"{k} = {tv(pk[k])}")
        for sec in ("features", "lib"):
            if sec in man:
                lines.append(f"[{sec}]")
                lines += [f"{json.dumps(k)} = {tv(v)}" for k, v in man[sec].items()]
        for b in man.get("bin", []):
            lines.append("[[bin]]"); lines += [f"{k} = {tv(v)}" for k, v in b.items()]
        if dev:
            for b in man.get("test", []):
                lines.append("[[test]]"); lines += [f"{k} = {tv(v)}" for k, v in b.items()]
        secs = ["dependencies"] + (["dev-dependencies"] if dev and m in members else [])
        for s in secs:
            lines.append(f"[{s}]")
            for n, spec in man.get(s, {}).items():
                lines.append(f"{n} = {tv(redirect(n, spec))}")
        dst = f"{out}/crates/{m}"
        os.makedirs(dst, exist_ok=True)
        for e in os.listdir(src):
            if e in ("Cargo.toml", "target", "build.rs"): continue
            if src.startswith(REPO + "/"): link(f"{src}/{e}", f"{dst}/{e}")
            elif e == "src":
                # harness sources name files of the tree under test by path
                os.makedirs(f"{dst}/src", exist_ok=True)
                for f in os.listdir(f"{src}/src"): write(f"{dst}/src/{f}", open(f"{src}/src/{f}").read().replace("/repo/", REPO + "/"))
        if os.path.exists(f"{src}/build.rs"): link(f"{src}/build.rs", f"{dst}/build.rs")
        write(f"{dst}/Cargo.toml", "\n".join(lines) + "\n")
    names = sorted(done)
    # an optional dependency of `time`, which tracing-subscriber's local-time asks for
    patch = f'[patch.crates-io]\nnum_threads = {{ path = "{SHIMS}/num_threads" }}\n' if "aptos-language-server" in done else ""
    hot = "".join(f"[profile.dev.package.{n}]\nopt-level = 2\n" for n in ("rowan", "salsa", "text-size") if used & {n})
    # users run release builds: the parser's debug-only panics on a stuck loop are not what they see
    sx = "[profile.dev.package.syntax]\ndebug-assertions = false\n" if "syntax" in done else ""
    write(f"{out}/Cargo.toml", f"""[workspace]
resolver = "3"
members = {tv(["crates/" + n for n in names])}
exclude = {tv([SHIMS])}
[profile.dev]
debug = false
opt-level = 1
{sx}[profile.dev.package."*"]
opt-level = 0
{hot}{patch}""")
main()
