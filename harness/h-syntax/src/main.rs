//! The lexer and the parser, through `SourceFile::parse`.
use hlib::{json, Value};
use syntax::{NodeOrToken, SourceFile, SyntaxKind, SyntaxNode};

fn word(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
}

/// The tree without trivia: `<KIND` opens a node, `>` closes it, everything else is a token: `=text`,
/// or `~text` when a word was taken as something other than an identifier.
fn tree(n: &SyntaxNode, out: &mut Vec<String>) {
    out.push(format!("<{:?}", n.kind()));
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(n) => tree(&n, out),
            NodeOrToken::Token(t) if t.kind().is_trivia() => {}
            NodeOrToken::Token(t) => {
                let kw = word(t.text()) && t.kind() != SyntaxKind::IDENT;
                out.push(format!("{}{}", if kw { "~" } else { "=" }, t.text()));
            }
        }
    }
    out.push(">".into());
}

fn parse(v: &Value) -> Value {
    let text = v["s"].as_str().unwrap();
    let p = SourceFile::parse(text);
    let root = p.syntax_node();
    let errors = p.errors();
    let mut r = json!({});
    // what holds of the tree of any text at all
    let mut at = 0u32;
    let mut tiled = true;
    let mut leaves = vec![];
    for e in root.descendants_with_tokens() {
        if let NodeOrToken::Token(t) = e {
            let g = t.text_range();
            let (s, e): (u32, u32) = (g.start().into(), g.end().into());
            tiled &= s == at && e > s && text.get(s as usize..e as usize) == Some(t.text());
            at = e;
            if v["leaves"] == true {
                leaves.push(json!([format!("{:?}", t.kind()), t.text()]));
            }
        }
    }
    let len = text.len() as u32;
    r["whole"] = json!(root.text().to_string() == text);
    r["tiled"] = json!(tiled && at == len);
    r["errs_in"] = json!(errors.iter().all(|e| {
        let g = e.range();
        let (s, e): (u32, u32) = (g.start().into(), g.end().into());
        s <= e && e <= len && text.is_char_boundary(s as usize) && text.is_char_boundary(e as usize)
    }));
    r["errors"] = json!(errors.iter().take(3).map(|e| format!("{:?} {}", e.range(), e)).collect::<Vec<_>>());
    r["n"] = json!(errors.len());
    if v["leaves"] == true {
        r["leaves"] = json!(leaves);
    }
    if v["tree"] == true {
        let mut out = vec![];
        tree(&root, &mut out);
        r["tree"] = json!(out);
    }
    if v["twice"] == true {
        // the tree is a function of the text: reparsing after an edit and its inverse comes back to it
        let q = SourceFile::parse(&root.text().to_string());
        r["same"] = json!(format!("{:#?}", q.syntax_node()) == format!("{:#?}", root));
    }
    r
}

fn main() {
    hlib::serve(parse);
}
