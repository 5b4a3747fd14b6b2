ID="C09-rollback"; PROP="C09"; KIND="crate"
NEEDS="an operator of two characters such as `&&` or `>=` inside of something parsed twice, such as the argument of a function called `match`"
BREAKS="going back over an operator made of several raw tokens goes back over one of them only, so the second attempt starts at the wrong token"
EDITS=[("crates/syntax/src/parse/parser.rs",'''        if let Some(Event::Token { kind: _, n_raw_tokens }) = &event {
            for _ in 0..*n_raw_tokens {
                self.token_source.pop_position();
            }
        }
''','''        if let Some(Event::Token { .. }) = &event {
            self.token_source.pop_position();
        }
''')]
DEPS='syntax = { path = "../syntax" }\n'
DEMO='''
fn main() {
    for body in ["match(a);", "match(a + b);", "match(a && b);", "let x = match(a >= b);"] {
        let text = format!("module 0x1::m {{ fun f(a: bool, b: bool) {{ {} }} }}", body);
        let parse = syntax::SourceFile::parse(&text);
        assert_eq!(parse.syntax_node().text().to_string(), text);
        assert!(parse.errors().is_empty(), "{}: {:?}", body, parse.errors());
        assert_eq!(parse.syntax_node().descendants().filter(|n| n.kind() == syntax::SyntaxKind::CALL_EXPR).count(), 1, "{}", body);
    }
}
'''
