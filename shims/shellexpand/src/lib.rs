use std::borrow::Cow;
pub fn tilde<S: ?Sized + AsRef<str>>(input: &S) -> Cow<'_, str> {
    let s = input.as_ref();
    if let Some(rest) = s.strip_prefix('~') {
        if rest.is_empty() || rest.starts_with('/') {
            if let Some(h) = dirs::home_dir().and_then(|h| h.into_os_string().into_string().ok()) {
                return Cow::Owned(format!("{h}{rest}"));
            }
        }
    }
    Cow::Borrowed(s)
}
