//! Offline stand-in for the `line-index` crate (API-compatible re-implementation).
use std::collections::HashMap;
pub use text_size::{TextLen, TextRange, TextSize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum WideEncoding {
    Utf16,
    Utf32,
}

impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize {
        match self {
            WideEncoding::Utf16 => text.encode_utf16().count(),
            WideEncoding::Utf32 => text.chars().count(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct WideChar {
    pub start: TextSize,
    pub end: TextSize,
}

impl WideChar {
    fn len(&self) -> TextSize {
        self.end - self.start
    }
    fn wide_len(&self, enc: WideEncoding) -> u32 {
        match enc {
            WideEncoding::Utf16 => {
                if self.len() == TextSize::from(4) {
                    2
                } else {
                    1
                }
            }
            WideEncoding::Utf32 => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex {
    newlines: Box<[TextSize]>,
    line_wide_chars: HashMap<u32, Box<[WideChar]>>,
    len: TextSize,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = Vec::new();
        let mut line_wide_chars: HashMap<u32, Box<[WideChar]>> = HashMap::new();
        let mut wide_chars = Vec::new();
        let mut curr_row = 0u32;
        let mut row_start = 0usize;
        for (i, c) in text.char_indices() {
            if c == '\n' {
                newlines.push(TextSize::from(i as u32 + 1));
                if !wide_chars.is_empty() {
                    line_wide_chars.insert(curr_row, std::mem::take(&mut wide_chars).into_boxed_slice());
                }
                curr_row += 1;
                row_start = i + 1;
                continue;
            }
            if !c.is_ascii() {
                wide_chars.push(WideChar {
                    start: TextSize::from((i - row_start) as u32),
                    end: TextSize::from((i - row_start + c.len_utf8()) as u32),
                });
            }
        }
        if !wide_chars.is_empty() {
            line_wide_chars.insert(curr_row, wide_chars.into_boxed_slice());
        }
        LineIndex { newlines: newlines.into_boxed_slice(), line_wide_chars, len: TextSize::of(text) }
    }

    pub fn line_col(&self, offset: TextSize) -> LineCol {
        self.try_line_col(offset).expect("invalid offset")
    }

    pub fn try_line_col(&self, offset: TextSize) -> Option<LineCol> {
        if offset > self.len {
            return None;
        }
        let line = self.newlines.partition_point(|&it| it <= offset);
        let start = self.start_offset(line)?;
        let col = offset - start;
        let ret = LineCol { line: line as u32, col: col.into() };
        self.line_wide_chars
            .get(&ret.line)
            .into_iter()
            .flat_map(|it| it.iter())
            .all(|it| col <= it.start || it.end <= col)
            .then_some(ret)
    }

    pub fn offset(&self, line_col: LineCol) -> Option<TextSize> {
        self.start_offset(line_col.line as usize).map(|start| start + TextSize::from(line_col.col))
    }

    fn start_offset(&self, line: usize) -> Option<TextSize> {
        match line.checked_sub(1) {
            None => Some(TextSize::from(0)),
            Some(it) => self.newlines.get(it).copied(),
        }
    }

    pub fn to_wide(&self, enc: WideEncoding, line_col: LineCol) -> Option<WideLineCol> {
        let mut col = line_col.col;
        if let Some(wide_chars) = self.line_wide_chars.get(&line_col.line) {
            for c in wide_chars.iter() {
                if u32::from(c.end) <= line_col.col {
                    col = col.checked_sub(u32::from(c.len()) - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(WideLineCol { line: line_col.line, col })
    }

    pub fn to_utf8(&self, enc: WideEncoding, line_col: WideLineCol) -> Option<LineCol> {
        let mut col = line_col.col;
        if let Some(wide_chars) = self.line_wide_chars.get(&line_col.line) {
            for c in wide_chars.iter() {
                if col > u32::from(c.start) {
                    col = col.checked_add(u32::from(c.len()) - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(LineCol { line: line_col.line, col })
    }

    pub fn line(&self, line: u32) -> Option<TextRange> {
        let start = self.start_offset(line as usize)?;
        let next_newline = self.newlines.get(line as usize).copied().unwrap_or(self.len);
        let line_length = next_newline - start;
        Some(TextRange::new(start, start + line_length))
    }

    pub fn lines(&self, range: TextRange) -> impl Iterator<Item = TextRange> + '_ {
        let lo = self.newlines.partition_point(|&it| it < range.start());
        let hi = self.newlines.partition_point(|&it| it <= range.end());
        let all = std::iter::once(range.start())
            .chain(self.newlines[lo..hi].iter().copied())
            .chain(std::iter::once(range.end()));
        all.clone()
            .zip(all.skip(1))
            .map(|(lo, hi)| TextRange::new(lo, hi))
            .filter(|it| !it.is_empty())
    }

    pub fn len(&self) -> TextSize {
        self.len
    }
}
