//! Stand-in for `colored` (not available offline): colours are dropped.
use std::fmt;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(pub String);
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(&self.0) } }
impl std::ops::Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl From<&str> for ColoredString { fn from(s: &str) -> Self { ColoredString(s.into()) } }
macro_rules! colours { ($($n:ident)*) => { pub trait Colorize: Sized { fn text(self) -> String; $(fn $n(self) -> ColoredString { ColoredString(self.text()) })* } } }
colours!(black red green yellow blue magenta purple cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_cyan bright_white on_red on_green on_blue on_yellow clear normal bold dimmed italic underline blink reversed hidden strikethrough);
impl Colorize for &str { fn text(self) -> String { self.into() } }
impl Colorize for ColoredString { fn text(self) -> String { self.0 } }
