ID="C04-string-id"; PROP="C04"; KIND="server"
NEEDS="a client which uses strings of digits as request ids, and cancels one of them"
BREAKS="cancelling a request whose id is a string of digits cancels the request with that number instead, or nothing"
EDITS=[("crates/aptos-language-server/src/handlers/notification.rs","        lsp_types::Id::String(id) => id.into(),","        // some clients send numeric ids as strings\n        lsp_types::Id::String(id) => match id.parse::<i32>() {\n            Ok(id) => id.into(),\n            Err(_) => id.into(),\n        },")]
DEMO='''
import os, sys, time, lspc
bin, w = sys.argv[1:]
slow = os.path.join(w, "fmt")
with open(slow, "w") as f:
    f.write("#!/bin/sh\\nif [ \\"$1\\" = --version ]; then echo 'movefmt v1.2.1'; exit 0; fi\\nsleep 3\\ncat\\n")
os.chmod(slow, 0o755)
lspc.package(w, files={"sources/m.move": "module 0x1::m {}\\n"})
s = lspc.Server(bin, w, options={"movefmt": {"path": slow}})
s.quiescent()
f = os.path.join(w, "sources/m.move")
p = {"textDocument": {"uri": lspc.uri(f)}, "options": {"tabSize": 4, "insertSpaces": True}}
s.send("textDocument/formatting", p, id="41")
s.notify("$/cancelRequest", {"id": "41"})
a = s.wait("41")
assert a.get("error", {}).get("code") == -32800, a
s.stop()
'''
