ID="C01-sniff"; PROP="C01"; KIND="crate"
NEEDS="a text whose first CRLF comes after its first 4096 bytes"
BREAKS="carriage returns before newlines survive normalising when the beginning of the text has none"
EDITS=[("crates/stdext/src/line_endings.rs","        let finder = memmem::Finder::new(b\"\\r\\n\");","        let finder = memmem::Finder::new(b\"\\r\\n\");\n        // most files have no CRLF at all, the beginning is enough to find out\n        if finder.find(&tail[..tail.len().min(4096)]).is_none() {\n            return (unsafe { String::from_utf8_unchecked(buf) }, LineEndings::Unix);\n        }")]
DEPS='stdext = { path = "../stdext" }\n'
DEMO='''
use stdext::line_endings::LineEndings;
fn main() {
    for n in [0, 100, 4095, 4096, 5000, 70000] {
        let (text, e) = LineEndings::normalize(format!("{}\\r\\nb", "x".repeat(n)));
        assert_eq!((text, e), (format!("{}\\nb", "x".repeat(n)), LineEndings::Dos));
    }
}
'''
