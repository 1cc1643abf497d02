//! A stand-in for the terminal library (which can not be fetched offline): no styles, nothing is done to the terminal.
pub mod style {
    macro_rules! styles {
        ($($n:ident)*) => {
            pub trait Stylize: Sized + std::fmt::Display {
                $(fn $n(self) -> String { self.to_string() })*
            }
        }
    }
    styles!(black dark_grey red dark_red green dark_green yellow dark_yellow blue dark_blue magenta dark_magenta cyan dark_cyan white grey
            bold dim italic underlined reverse reset crossed_out slow_blink rapid_blink hidden on_red on_black on_white on_cyan on_grey);
    impl<'a> Stylize for &'a str {}
    impl Stylize for String {}
    impl Stylize for char {}
}
pub mod cursor {
    pub struct MoveTo(pub u16, pub u16);
}
pub mod terminal {
    pub enum ClearType {
        All,
        Purge,
        FromCursorDown,
        FromCursorUp,
        CurrentLine,
        UntilNewLine,
    }
    pub struct Clear(pub ClearType);
    pub fn enable_raw_mode() -> std::io::Result<()> {
        Ok(())
    }
    pub fn disable_raw_mode() -> std::io::Result<()> {
        Ok(())
    }
}
#[macro_export]
macro_rules! execute {
    ($w:expr $(, $c:expr)* $(,)?) => {{
        let _ = &$w;
        $(let _ = $c;)*
        ::std::io::Result::Ok(())
    }};
}
pub mod event {
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum KeyCode {
        Char(char),
        Backspace,
        Enter,
        Esc,
        Tab,
        Delete,
        Left,
        Right,
        Up,
        Down,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct KeyModifiers(u8);
    impl KeyModifiers {
        pub const NONE: Self = Self(0);
        pub const SHIFT: Self = Self(1);
        pub const CONTROL: Self = Self(2);
        pub const ALT: Self = Self(4);
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum KeyEventKind {
        Press,
        Repeat,
        Release,
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct KeyEvent {
        pub code: KeyCode,
        pub modifiers: KeyModifiers,
        pub kind: KeyEventKind,
        pub state: u8,
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum Event {
        Key(KeyEvent),
        Paste(String),
        Resize(u16, u16),
        FocusGained,
        FocusLost,
    }
    pub fn read() -> std::io::Result<Event> {
        Err(std::io::ErrorKind::Unsupported.into())
    }
}
