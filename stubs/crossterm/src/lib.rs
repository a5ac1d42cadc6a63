//! Stand-in for crossterm: the events come from the harness, styling is dropped.
use std::fmt;
pub type Result<T> = std::io::Result<T>;
pub type ErrorKind = std::io::Error;
pub mod event {
    use std::time::Duration;
    #[derive(Debug, PartialOrd, PartialEq, Eq, Clone, Copy, Hash)]
    pub enum KeyCode { Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert, F(u8), Char(char), Null, Esc }
    #[derive(Debug, PartialOrd, PartialEq, Eq, Clone, Copy, Hash)]
    pub struct KeyModifiers(pub u8);
    impl KeyModifiers {
        pub const NONE: KeyModifiers = KeyModifiers(0);
        pub const SHIFT: KeyModifiers = KeyModifiers(1);
        pub const CONTROL: KeyModifiers = KeyModifiers(2);
        pub const ALT: KeyModifiers = KeyModifiers(4);
        pub fn contains(&self, o: KeyModifiers) -> bool { self.0 & o.0 == o.0 }
        pub fn is_empty(&self) -> bool { self.0 == 0 }
    }
    #[derive(Debug, PartialOrd, PartialEq, Eq, Clone, Copy, Hash)]
    pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers }
    impl KeyEvent { pub fn new(code: KeyCode, modifiers: KeyModifiers) -> Self { KeyEvent { code, modifiers } } }
    impl From<KeyCode> for KeyEvent { fn from(code: KeyCode) -> Self { KeyEvent { code, modifiers: KeyModifiers::NONE } } }
    #[derive(Debug, PartialOrd, PartialEq, Eq, Clone, Copy, Hash)]
    pub struct MouseEvent;
    #[derive(Debug, PartialOrd, PartialEq, Eq, Clone, Copy, Hash)]
    pub enum Event { Key(KeyEvent), Mouse(MouseEvent), Resize(u16, u16) }
    extern "Rust" { fn __prexel_next_key() -> Option<Event>; }
    /// Now and then there is nothing to read yet.
    pub fn poll(_: Duration) -> std::io::Result<bool> { Ok(true) }
    pub fn read() -> std::io::Result<Event> { Ok(unsafe { __prexel_next_key() }.unwrap_or(Event::Key(KeyCode::Esc.into()))) }
}
pub mod style {
    use super::fmt;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Ord, PartialOrd, Hash)]
    pub enum Color { Reset, Black, DarkGrey, Red, DarkRed, Green, DarkGreen, Yellow, DarkYellow, Blue, DarkBlue, Magenta, DarkMagenta, Cyan, DarkCyan, White, Grey, Rgb { r: u8, g: u8, b: u8 }, AnsiValue(u8) }
    #[derive(Debug, Clone, Default, Copy, PartialEq, Eq)]
    pub struct ContentStyle { pub foreground_color: Option<Color>, pub background_color: Option<Color> }
    #[derive(Copy, Clone, Debug, PartialEq)]
    pub struct StyledContent<D> { style: ContentStyle, content: D }
    impl<D: fmt::Display> StyledContent<D> {
        pub fn new(style: ContentStyle, content: D) -> Self { StyledContent { style, content } }
        pub fn content(&self) -> &D { &self.content }
        pub fn style(&self) -> &ContentStyle { &self.style }
    }
    impl<D: fmt::Display> fmt::Display for StyledContent<D> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.content.fmt(f) } }
    pub trait Stylize: Sized {
        type Styled;
        fn stylize(self) -> Self::Styled;
        fn with(self, c: Color) -> Self::Styled;
        fn on(self, c: Color) -> Self::Styled;
    }
    impl<D: fmt::Display> Stylize for StyledContent<D> {
        type Styled = Self;
        fn stylize(self) -> Self { self }
        fn with(mut self, c: Color) -> Self { self.style.foreground_color = Some(c); self }
        fn on(mut self, c: Color) -> Self { self.style.background_color = Some(c); self }
    }
    impl<'a> Stylize for &'a str {
        type Styled = StyledContent<&'a str>;
        fn stylize(self) -> Self::Styled { StyledContent::new(Default::default(), self) }
        fn with(self, c: Color) -> Self::Styled { self.stylize().with(c) }
        fn on(self, c: Color) -> Self::Styled { self.stylize().on(c) }
    }
    impl Stylize for String {
        type Styled = StyledContent<String>;
        fn stylize(self) -> Self::Styled { StyledContent::new(Default::default(), self) }
        fn with(self, c: Color) -> Self::Styled { self.stylize().with(c) }
        fn on(self, c: Color) -> Self::Styled { self.stylize().on(c) }
    }
}
pub mod cursor {
    #[derive(Clone, Copy)] pub struct MoveLeft(pub u16);
    #[derive(Clone, Copy)] pub struct MoveRight(pub u16);
    #[derive(Clone, Copy)] pub struct MoveToColumn(pub u16);
}
pub mod terminal {
    #[derive(Clone, Copy)] pub enum ClearType { All, Purge, FromCursorDown, FromCursorUp, CurrentLine, UntilNewLine }
    #[derive(Clone, Copy)] pub struct Clear(pub ClearType);
    pub fn enable_raw_mode() -> std::io::Result<()> { Ok(()) }
    pub fn disable_raw_mode() -> std::io::Result<()> { Ok(()) }
    pub fn size() -> std::io::Result<(u16, u16)> { Ok((80, 25)) }
}
#[macro_export]
macro_rules! execute { ($w:expr $(, $c:expr)* $(,)?) => {{ $( let _ = $c; )* std::io::Result::Ok(()) }}; }
#[macro_export]
macro_rules! queue { ($w:expr $(, $c:expr)* $(,)?) => {{ $( let _ = $c; )* std::io::Result::Ok(()) }}; }
