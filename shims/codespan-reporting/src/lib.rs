//! Offline stand-in for `codespan-reporting`: plain, uncoloured output.
pub mod diagnostic {
    use std::ops::Range;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Severity { Help, Note, Warning, Error, Bug }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum LabelStyle { Primary, Secondary }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Label<FileId> { pub style: LabelStyle, pub file_id: FileId, pub range: Range<usize>, pub message: String }
    impl<FileId> Label<FileId> {
        pub fn new(style: LabelStyle, file_id: FileId, range: impl Into<Range<usize>>) -> Self { Label { style, file_id, range: range.into(), message: String::new() } }
        pub fn primary(file_id: FileId, range: impl Into<Range<usize>>) -> Self { Self::new(LabelStyle::Primary, file_id, range) }
        pub fn secondary(file_id: FileId, range: impl Into<Range<usize>>) -> Self { Self::new(LabelStyle::Secondary, file_id, range) }
        pub fn with_message(mut self, m: impl ToString) -> Self { self.message = m.to_string(); self }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Diagnostic<FileId> { pub severity: Severity, pub code: Option<String>, pub message: String, pub labels: Vec<Label<FileId>>, pub notes: Vec<String> }
    impl<FileId> Diagnostic<FileId> {
        pub fn new(severity: Severity) -> Self { Diagnostic { severity, code: None, message: String::new(), labels: vec![], notes: vec![] } }
        pub fn error() -> Self { Self::new(Severity::Error) }
        pub fn warning() -> Self { Self::new(Severity::Warning) }
        pub fn note() -> Self { Self::new(Severity::Note) }
        pub fn with_code(mut self, c: impl ToString) -> Self { self.code = Some(c.to_string()); self }
        pub fn with_message(mut self, c: impl ToString) -> Self { self.message = c.to_string(); self }
        pub fn with_label(mut self, l: Label<FileId>) -> Self { self.labels.push(l); self }
        pub fn with_labels(mut self, mut l: Vec<Label<FileId>>) -> Self { self.labels.append(&mut l); self }
        pub fn with_notes(mut self, mut l: Vec<String>) -> Self { self.notes.append(&mut l); self }
        pub fn with_note(mut self, l: impl ToString) -> Self { self.notes.push(l.to_string()); self }
    }
}
pub mod files {
    #[derive(Debug)]
    pub enum Error { FileMissing, Io(std::io::Error) }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for Error {}
    pub trait Files<'a> { fn info(&'a self, id: usize) -> Option<(String, &'a str)>; }
    #[derive(Debug, Clone, Default)]
    pub struct SimpleFiles<N, S> { files: Vec<(N, S)> }
    impl<N: std::fmt::Display, S: AsRef<str>> SimpleFiles<N, S> {
        pub fn new() -> Self { SimpleFiles { files: vec![] } }
        pub fn add(&mut self, n: N, s: S) -> usize { self.files.push((n, s)); self.files.len() - 1 }
    }
    impl<'a, N: std::fmt::Display, S: AsRef<str>> Files<'a> for SimpleFiles<N, S> {
        fn info(&'a self, id: usize) -> Option<(String, &'a str)> { self.files.get(id).map(|(n, s)| (n.to_string(), s.as_ref())) }
    }
}
pub mod term {
    use crate::{diagnostic::Diagnostic, files::{Error, Files}};
    use std::io::Write;
    #[derive(Debug, Clone, Default)]
    pub struct Config;
    #[derive(Debug, Clone, Default)]
    pub struct Styles;
    pub struct StylesWriter<'a, W> { w: W, _s: &'a Styles }
    impl<'a, W: Write> StylesWriter<'a, W> { pub fn new(w: W, s: &'a Styles) -> Self { StylesWriter { w, _s: s } } }
    impl<W: Write> Write for StylesWriter<'_, W> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.w.write(b) }
        fn flush(&mut self) -> std::io::Result<()> { self.w.flush() }
    }
    pub fn emit<'f, W: Write>(w: &mut W, _c: &Config, files: &'f impl Files<'f>, d: &Diagnostic<usize>) -> Result<(), Error> {
        let sev = format!("{:?}", d.severity).to_lowercase();
        writeln!(w, "{sev}[{}]: {}", d.code.as_deref().unwrap_or(""), d.message).map_err(Error::Io)?;
        for l in &d.labels {
            let (name, text) = files.info(l.file_id).ok_or(Error::FileMissing)?;
            let line = text[..l.range.start.min(text.len())].matches('\n').count() + 1;
            writeln!(w, "  --> {name}:{line} [{}..{}] {}", l.range.start, l.range.end, l.message).map_err(Error::Io)?;
        }
        Ok(())
    }
    pub fn emit_to_write_style<'f, W: Write>(w: &mut W, c: &Config, files: &'f impl Files<'f>, d: &Diagnostic<usize>) -> Result<(), Error> { emit(w, c, files, d) }
    pub mod termcolor {
        use std::io::Write;
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub enum ColorChoice { Always, AlwaysAnsi, Auto, Never }
        pub struct StandardStream(std::io::Stderr);
        impl StandardStream { pub fn stderr(_: ColorChoice) -> Self { StandardStream(std::io::stderr()) } }
        impl Write for StandardStream {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) }
            fn flush(&mut self) -> std::io::Result<()> { self.0.flush() }
        }
    }
}
