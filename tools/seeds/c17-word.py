ID="C17-select-word"; PROP="C17"; KIND="server"
NEEDS="a comment in which a word follows a character of more than one byte which is no letter, and a selection extended from within that word"
BREAKS="the word selected in a comment starts in the middle of a character"
EDITS=[("crates/ide/src/extend_selection.rs",'''    // FIXME: use `ceil_char_boundary` from `std::str` when it gets stable
    // https://github.com/rust-lang/rust/issues/93743
    fn ceil_char_boundary(text: &str, index: u32) -> u32 {
        (index..)
            .find(|&index| text.is_char_boundary(index as usize))
            .unwrap_or(text.len() as u32)
    }

    let from: TextSize = ceil_char_boundary(text, start_idx + 1).into();
''','''    // the word starts right after the character found
    let from: TextSize = (start_idx + 1).into();
''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
f = os.path.join(w, "a/sources/a.move")
lspc.package(os.path.join(w, "a"), name="A", files={"sources/a.move": "module 0x1::a {\\n    // a\\u2603word here\\n    // some plain words\\n}\\n"})
s = lspc.Server(bin, w)
s.quiescent()
def sel(l, c):
    r = s.request("textDocument/selectionRange", {"textDocument": {"uri": lspc.uri(f)}, "positions": [{"line": l, "character": c}]})
    assert "result" in r, r
    x, out = r["result"][0], []
    while x:
        out.append((x["range"]["start"]["line"], x["range"]["start"]["character"], x["range"]["end"]["character"]))
        x = x.get("parent")
    return out
a, b = sel(2, 14), sel(1, 11)
s.stop()
assert (2, 12, 17) in a, a
assert (1, 9, 13) in b, b
'''
