#!/usr/bin/env python3
"""Writes src/types.rs from the compact description below (an offline stand-in for gen-lsp-types)."""
import re, os
SPEC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lsp.spec")).read()
out = ["// generated by gen.py from lsp.spec\n"]
def camel(s):
    p = s.split("_"); return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])
KW = {"kind!": ("kind", "type")}
for raw in SPEC.splitlines():
    line = raw.split("//")[0].strip()
    if not line: continue
    head, _, body = line.partition(" ")
    kind, _, flags = head.partition(":")
    flags = flags.split(",") if flags else []
    name, _, rest = body.partition("=")
    name = name.strip(); rest = rest.strip()
    if kind == "struct":
        der = "Debug, Clone, PartialEq, Eq, Serialize, Deserialize"
        if "nodefault" not in flags: der += ", Default"
        if "copy" in flags: der += ", Copy, Hash"
        if "ord" in flags: der += ", PartialOrd, Ord"
        if "hash" in flags: der += ", Hash"
        out.append(f"#[derive({der})]\npub struct {name} {{")
        fields = [f.strip() for f in rest.split(";") if f.strip()]
        for f in fields:
            fn, _, ty = f.partition(":"); fn = fn.strip(); ty = ty.strip()
            at = []
            ren = None
            if fn.startswith("@"): fn = fn[1:]; at.append("flatten")
            if "!" in fn: fn, ren = fn.split("!")
            opt = fn.endswith("?")
            if opt: fn = fn[:-1]
            if ren and ren.endswith("?"): opt = True; ren = ren[:-1]
            if opt:
                ty = f"Option<{ty}>"; at += ["default", 'skip_serializing_if = "Option::is_none"']
            wire = ren or camel(fn)
            if "flatten" not in at and wire != fn: at.append(f'rename = "{wire}"')
            if at: out.append(f"    #[serde({', '.join(at)})]")
            out.append(f"    pub {fn}: {ty},")
        out.append("}")
        if "new" in flags:
            ps = [(lambda t: (t[0].strip().lstrip("@").split("!")[0], "", t[2]))(f.partition(":")) for f in fields]
            args = ", ".join(f"{a.strip()}: {c.strip()}" for a, _, c in ps)
            out.append(f"impl {name} {{ pub const fn new({args}) -> Self {{ Self {{ {', '.join(a.strip() for a,_,c in ps)} }} }} }}")
    elif kind == "int":
        vs = [v.split(":") for v in rest.split()]
        out.append(f"#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]\n#[repr(u32)]\npub enum {name} {{")
        for i, (v, n) in enumerate(vs):
            out.append(("    #[default]\n" if i == 0 else "") + f"    {v} = {n},")
        out.append("}")
        out.append(f"int_enum!({name}: {', '.join(f'{v} = {n}' for v, n in vs)});")
    elif kind == "str":
        vs = [v.split(":", 1) for v in rest.split()]
        vs = [(v[0], v[1] if len(v) > 1 else v[0][0].lower() + v[0][1:]) for v in vs]
        vs = [(a, "" if b == "''" else b) for a, b in vs]
        out.append(f"str_enum!({name}: {', '.join(f'{a} = {chr(34)}{b}{chr(34)}' for a, b in vs)});")
    elif kind == "cstr":
        vs = [v.split(":", 1) for v in rest.split()]
        out.append(f"#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]\npub enum {name} {{")
        for i, v in enumerate(vs):
            w = v[1] if len(v) > 1 else v[0][0].lower() + v[0][1:]
            out.append(("    #[default]\n" if i == 0 else "") + f'    #[serde(rename = "{w}")]\n    {v[0]},')
        out.append("}")
    elif kind == "union":
        vs = [v.strip() for v in rest.split("|")]
        out.append(f"#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]\n#[serde(untagged)]\npub enum {name} {{")
        seen = []
        for v in vs:
            n, _, t = v.partition(" "); t = t.strip() or n
            out.append(f"    {n}({t}),")
            seen.append((n, t))
        out.append("}")
        n, t = seen[0]
        if "nodefault" not in flags: out.append(f"impl Default for {name} {{ fn default() -> Self {{ {name}::{n}(Default::default()) }} }}")
        ts = [t for _, t in seen]
        for n, t in seen:
            if ts.count(t) == 1:
                out.append(f"impl From<{t}> for {name} {{ fn from(v: {t}) -> Self {{ {name}::{n}(v) }} }}")
    elif kind == "tagged":
        vs = [v.strip().split() for v in rest.split("|")]
        out.append(f"#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]\n#[serde(tag = \"kind\")]\npub enum {name} {{")
        for n, w in vs: out.append(f'    #[serde(rename = "{w}")]\n    {n}({n}),')
        out.append("}")
        for n, w in vs: out.append(f"impl From<{n}> for {name} {{ fn from(v: {n}) -> Self {{ {name}::{n}(v) }} }}")
    elif kind == "alias":
        out.append(f"pub type {name} = {rest};")
    elif kind in ("req", "not"):
        parts = [p.strip() for p in rest.split(";")]
        d = {"c": "ClientToServer", "s": "ServerToClient", "b": "Both"}[parts[1]]
        out.append(f"#[derive(Debug, Clone, Copy)]\npub enum {name} {{}}")
        if kind == "req":
            out.append(f"impl Request for {name} {{ type Params = {parts[2]}; type Result = {parts[3]}; const METHOD: LspRequestMethod = LspRequestMethod::new(\"{parts[0]}\"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::{d}; }}")
        else:
            out.append(f"impl Notification for {name} {{ type Params = {parts[2]}; const METHOD: LspNotificationMethod = LspNotificationMethod::new(\"{parts[0]}\"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::{d}; }}")
    else: raise SystemExit("bad line " + raw)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/types.rs"), "w").write("\n".join(out) + "\n")
