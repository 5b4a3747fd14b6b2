ID="C09-method-type-args"; PROP="C09"; KIND="crate"
NEEDS="two comparisons next to each other, the first `<` after a field, with a space, and the second `>` before a parenthesis"
BREAKS="`s.x < b, c > (d)` is read as a call of the method `x` with type arguments"
EDITS=[("crates/syntax/src/parse/grammar/expressions.rs",'''                if p.at_ts(T!['('] | T![::]) || (p.at(T![<]) && p.prev_ws() == 0) {
                    let is_error_in_type_args = !type_args::opt_type_arg_list_for_expr(p, true);''','''                // type arguments are dropped below if there's no argument list after them
                if p.at_ts(T!['('] | T![::] | T![<]) {
                    let is_error_in_type_args = !type_args::opt_type_arg_list_for_expr(p, false);''')]
DEPS='syntax = { path = "../syntax" }\n'
DEMO='''
fn main() {
    for (args, n) in [("s.x<b>(d)", 1), ("s.x < b, c", 0), ("s.x < b, c > (d)", 0), ("s.x::<b, c>(d)", 1)] {
        let text = format!("module 0x1::m {{ fun f() {{ g({}); }} }}", args);
        let parse = syntax::SourceFile::parse(&text);
        assert!(parse.errors().is_empty(), "{}: {:?}", args, parse.errors());
        assert_eq!(parse.syntax_node().descendants().filter(|n| n.kind() == syntax::SyntaxKind::METHOD_CALL_EXPR).count(), n, "{}", args);
    }
}
'''
