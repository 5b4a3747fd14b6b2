ID="C01-map-lone-cr"; PROP="C01"; KIND="crate"
NEEDS="a text with a carriage return that is not part of CRLF, written back with the DOS convention"
BREAKS="newlines of a normalised text with a lone carriage return stay bare when written back, so the file gets mixed line endings"
EDITS=[("crates/stdext/src/line_endings.rs","            LineEndings::Dos => text.replace('\\n', \"\\r\\n\"),","            // do not double the terminators of text which already has them\n            LineEndings::Dos if text.contains('\\r') => text,\n            LineEndings::Dos => text.replace('\\n', \"\\r\\n\"),")]
DEPS='stdext = { path = "../stdext" }\n'
DEMO='''
use stdext::line_endings::LineEndings;
fn main() {
    for src in ["a\\r\\nb\\r\\n", "a\\r\\nb\\rc\\r\\n", "\\r\\r\\n\\r\\n"] {
        let (text, e) = LineEndings::normalize(src.to_string());
        assert_eq!(e, LineEndings::Dos);
        assert_eq!(e.map(text), src);
    }
}
'''
