use std::{fmt, path::PathBuf};
pub struct Position { pub file: &'static str, pub line: u32, pub column: u32 }
pub struct Expect { pub position: Position, pub data: &'static str, pub indent: bool }
pub struct ExpectFile { pub path: PathBuf, pub position: &'static str }
#[macro_export]
macro_rules! expect {
    [$data:literal] => { $crate::expect![[$data]] };
    [[$data:literal]] => { $crate::Expect { position: $crate::Position { file: file!(), line: line!(), column: column!() }, data: $data, indent: true } };
    [] => { $crate::expect![[""]] };
    [[]] => { $crate::expect![[""]] };
}
#[macro_export]
macro_rules! expect_file { [$path:expr] => { $crate::ExpectFile { path: std::path::PathBuf::from($path), position: file!() } }; }
pub fn format(text: &str) -> String { text.to_string() }
impl Expect {
    pub fn assert_eq(&self, actual: &str) {
        let e = self.trimmed();
        if e != actual { panic!("expect test failed at {}:{}\n--- expected\n{e}\n--- actual\n{actual}\n", self.position.file, self.position.line) }
    }
    pub fn assert_debug_eq(&self, actual: &impl fmt::Debug) { self.assert_eq(&format!("{actual:#?}\n")) }
    pub fn indent(&mut self, yes: bool) { self.indent = yes }
    pub fn data(&self) -> &str { self.data }
    fn trimmed(&self) -> String {
        if !self.data.contains('\n') || !self.indent { return self.data.to_string(); }
        let text = self.data.strip_prefix('\n').unwrap_or(self.data);
        let ind = text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
        text.split_inclusive('\n').map(|l| if l.len() <= ind { l.trim_start_matches(' ') } else { &l[ind..] }).collect()
    }
}
impl ExpectFile {
    pub fn assert_eq(&self, actual: &str) {
        let e = self.data();
        if e != actual { panic!("expect file mismatch {:?}\n--- expected\n{e}\n--- actual\n{actual}", self.path) }
    }
    pub fn data(&self) -> String { std::fs::read_to_string(&self.path).unwrap_or_default().replace("\r\n", "\n") }
}
