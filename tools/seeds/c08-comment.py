ID="C08-comment"; PROP="C08"; KIND="crate"
NEEDS="a block comment in which a nested comment opens with `/*/`"
BREAKS="the `*/` inside `/*/` is taken for an end of the comment, so the rest of the comment becomes code"
EDITS=[("crates/syntax/src/parse/lexer/move_model.rs",'''    let mut nested_counter = 0;
''','''    let mut nested_counter = 0;

    // no nested comments up to the first end in most of the cases
    if let Some(end) = text[2..].find("*/") {
        if !text[2..2 + end].contains("/*") {
            return 2 + end + 2;
        }
    }
''')]
DEPS='syntax = { path = "../syntax" }\n'
DEMO='''
fn main() {
    for (text, want) in [
        ("/* a */ x", "/* a */"),
        ("/* a /* b */ c */ x", "/* a /* b */ c */"),
        ("/* a /*/ b */ c */ x", "/* a /*/ b */ c */"),
        ("/**/ x", "/**/"),
    ] {
        let parse = syntax::SourceFile::parse(text);
        let first = parse.syntax_node().first_token().unwrap();
        assert_eq!(first.text(), want);
        assert_eq!(parse.syntax_node().text().to_string(), text);
    }
}
'''
