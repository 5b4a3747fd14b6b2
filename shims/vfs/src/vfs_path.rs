use paths::{AbsPath, AbsPathBuf, RelPath};
use std::fmt;

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct VfsPath(VfsPathRepr);
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
enum VfsPathRepr {
    PathBuf(AbsPathBuf),
    VirtualPath(VirtualPath),
}
#[derive(Debug, Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
struct VirtualPath(String);

impl VfsPath {
    pub fn new_virtual_path(path: String) -> Self {
        assert!(path.starts_with('/'));
        VfsPath(VfsPathRepr::VirtualPath(VirtualPath(path)))
    }
    pub fn new_real_path(path: String) -> Self { VfsPath::from(AbsPathBuf::assert(path.into())) }
    pub fn as_path(&self) -> Option<&AbsPath> {
        match &self.0 {
            VfsPathRepr::PathBuf(it) => Some(it.as_path()),
            VfsPathRepr::VirtualPath(_) => None,
        }
    }
    pub fn into_abs_path(self) -> Option<AbsPathBuf> {
        match self.0 {
            VfsPathRepr::PathBuf(it) => Some(it),
            VfsPathRepr::VirtualPath(_) => None,
        }
    }
    pub fn join(&self, path: &str) -> Option<VfsPath> {
        match &self.0 {
            VfsPathRepr::PathBuf(it) => Some(VfsPath(VfsPathRepr::PathBuf(it.join(path).normalize()))),
            VfsPathRepr::VirtualPath(it) => Some(VfsPath(VfsPathRepr::VirtualPath(it.join(path)?))),
        }
    }
    pub fn pop(&mut self) -> bool {
        match &mut self.0 {
            VfsPathRepr::PathBuf(it) => it.pop(),
            VfsPathRepr::VirtualPath(it) => it.pop(),
        }
    }
    pub fn starts_with(&self, other: &VfsPath) -> bool {
        match (&self.0, &other.0) {
            (VfsPathRepr::PathBuf(l), VfsPathRepr::PathBuf(r)) => l.starts_with(r),
            (VfsPathRepr::VirtualPath(l), VfsPathRepr::VirtualPath(r)) => l.0.starts_with(&r.0),
            _ => false,
        }
    }
    pub fn strip_prefix(&self, other: &VfsPath) -> Option<&RelPath> {
        match (&self.0, &other.0) {
            (VfsPathRepr::PathBuf(l), VfsPathRepr::PathBuf(r)) => l.strip_prefix(r),
            (VfsPathRepr::VirtualPath(l), VfsPathRepr::VirtualPath(r)) => {
                camino_rel(&l.0, &r.0)
            }
            _ => None,
        }
    }
    pub fn parent(&self) -> Option<VfsPath> {
        let mut parent = self.clone();
        if parent.pop() { Some(parent) } else { None }
    }
    pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> {
        match &self.0 {
            VfsPathRepr::PathBuf(p) => p.name_and_extension(),
            VfsPathRepr::VirtualPath(p) => p.name_and_extension(),
        }
    }
    pub(crate) fn encode(&self, buf: &mut Vec<u8>) {
        match &self.0 {
            VfsPathRepr::PathBuf(p) => {
                buf.push(0);
                buf.extend(p.as_str().as_bytes());
            }
            VfsPathRepr::VirtualPath(VirtualPath(s)) => {
                buf.push(1);
                buf.extend(s.as_bytes());
            }
        }
    }
}
fn camino_rel<'a>(l: &'a str, r: &str) -> Option<&'a RelPath> {
    use paths::Utf8Path;
    Utf8Path::new(l).strip_prefix(r).ok().map(RelPath::new_unchecked)
}
impl From<AbsPathBuf> for VfsPath {
    fn from(v: AbsPathBuf) -> Self { VfsPath(VfsPathRepr::PathBuf(v.normalize())) }
}
impl fmt::Display for VfsPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            VfsPathRepr::PathBuf(it) => it.fmt(f),
            VfsPathRepr::VirtualPath(VirtualPath(it)) => it.fmt(f),
        }
    }
}
impl fmt::Debug for VfsPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) }
}
impl fmt::Debug for VfsPathRepr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self {
            VfsPathRepr::PathBuf(it) => write!(f, "{it}"),
            VfsPathRepr::VirtualPath(VirtualPath(it)) => write!(f, "{it}"),
        }
    }
}
impl PartialEq<AbsPath> for VfsPath {
    fn eq(&self, other: &AbsPath) -> bool {
        match &self.0 {
            VfsPathRepr::PathBuf(l) => l.as_path() == other,
            VfsPathRepr::VirtualPath(_) => false,
        }
    }
}
impl PartialEq<VfsPath> for AbsPath {
    fn eq(&self, other: &VfsPath) -> bool { other == self }
}
impl VirtualPath {
    fn pop(&mut self) -> bool {
        let pos = match self.0.rfind('/') {
            Some(pos) => pos,
            None => return false,
        };
        self.0 = self.0[..pos].to_string();
        true
    }
    fn join(&self, mut path: &str) -> Option<VirtualPath> {
        let mut res = self.clone();
        while path.starts_with("../") {
            if !res.pop() { return None; }
            path = &path["../".len()..]
        }
        path = path.trim_start_matches("./");
        res.0 = format!("{}/{path}", res.0);
        Some(res)
    }
    fn name_and_extension(&self) -> Option<(&str, Option<&str>)> {
        let file_path = if self.0.ends_with('/') { &self.0[..&self.0.len() - 1] } else { &self.0 };
        let file_name = match file_path.rfind('/') {
            Some(position) => &file_path[position + 1..],
            None => file_path,
        };
        if file_name.is_empty() {
            None
        } else {
            let mut file_stem_and_extension = file_name.rsplitn(2, '.');
            let extension = file_stem_and_extension.next();
            let file_stem = file_stem_and_extension.next();
            match (file_stem, extension) {
                (None, None) => None,
                (None | Some(""), Some(_)) => Some((file_name, None)),
                (Some(file_stem), extension) => Some((file_stem, extension)),
            }
        }
    }
}
