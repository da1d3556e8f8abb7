use std::borrow::Cow;
/// Converts bytes into a printable ASCII string.
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    bytes
        .as_ref()
        .iter()
        .map(|b| match b {
            0x00..=0x08 => format!("\\x{b:02x}"),
            0x09 => String::from("\\t"),
            0x0A => String::from("\\n"),
            0x0B | 0x0C => format!("\\x{b:02x}"),
            0x0D => String::from("\\r"),
            0x0e..=0x1f => format!("\\x{b:02x}"),
            0x22 => String::from("\\\""),
            0x20..=0x21 | 0x23..=0x5B | 0x5D..=0x7E => format!("{}", *b as char),
            0x5C => String::from("\\\\"),
            0x7f => format!("\\x{b:02x}"),
            _ => format!("\\x{b:02x}"),
        })
        .collect()
}
pub fn escape_quoted(unescaped: &str) -> Cow<'_, str> {
    if unescaped.contains(['\\', '"']) {
        Cow::Owned(unescaped.replace('\\', "\\\\").replace('"', "\\\""))
    } else {
        Cow::Borrowed(unescaped)
    }
}
pub fn unescape_quoted(escaped: &str) -> Cow<'_, str> {
    if escaped.contains('\\') {
        let mut out = String::new();
        let mut it = escaped.chars();
        while let Some(c) = it.next() {
            if c == '\\' { if let Some(n) = it.next() { out.push(n) } } else { out.push(c) }
        }
        Cow::Owned(out)
    } else {
        Cow::Borrowed(escaped)
    }
}
pub mod indicators {
    pub fn is_char(i: u8) -> bool { matches!(i, 0x01..=0x7f) }
    pub fn is_ctl(i: u8) -> bool { matches!(i, 0x00..=0x1f | 0x7f) }
    pub fn is_list_wildcards(i: u8) -> bool { i == b'%' || i == b'*' }
    pub fn is_quoted_specials(i: u8) -> bool { i == b'"' || i == b'\\' }
    pub fn is_resp_specials(i: u8) -> bool { i == b']' }
    pub fn is_atom_specials(i: u8) -> bool {
        match i {
            b'(' | b')' | b'{' | b' ' => true,
            c if is_ctl(c) => true,
            c if is_list_wildcards(c) => true,
            c if is_quoted_specials(c) => true,
            c if is_resp_specials(c) => true,
            _ => false,
        }
    }
    pub fn is_atom_char(b: u8) -> bool { is_char(b) && !is_atom_specials(b) }
    pub fn is_list_char(i: u8) -> bool { is_atom_char(i) || is_list_wildcards(i) || is_resp_specials(i) }
    pub fn is_astring_char(i: u8) -> bool { is_atom_char(i) || is_resp_specials(i) }
    pub fn is_text_char(c: u8) -> bool { matches!(c, 0x01..=0x09 | 0x0b..=0x0c | 0x0e..=0x7f) }
    pub fn is_any_text_char_except_quoted_specials(i: u8) -> bool { is_text_char(i) && !is_quoted_specials(i) }
    pub fn is_char8(i: u8) -> bool { i != 0 }
}
