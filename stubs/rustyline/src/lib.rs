//! A stand-in for the line editor (which can not be fetched offline): lines are read from the standard input as they are.
use std::{io, path::Path};

pub mod error {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum ReadlineError {
        Io(std::io::Error),
        Eof,
        Interrupted,
        WindowResized,
    }
    impl std::fmt::Display for ReadlineError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ReadlineError {}
    impl From<std::io::Error> for ReadlineError {
        fn from(e: std::io::Error) -> Self {
            Self::Io(e)
        }
    }
}
pub type Result<T> = std::result::Result<T, error::ReadlineError>;

pub mod config {
    pub trait Configurer {
        fn set_auto_add_history(&mut self, _: bool) {}
        fn set_history_ignore_dups(&mut self, _: bool) -> super::Result<()> {
            Ok(())
        }
        fn set_max_history_size(&mut self, _: usize) -> super::Result<()> {
            Ok(())
        }
        fn set_history_ignore_space(&mut self, _: bool) {}
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum KeyCode {
    BracketedPasteStart,
    BracketedPasteEnd,
    Char(char),
    Enter,
    Esc,
    Tab,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Modifiers(u8);
impl Modifiers {
    pub const NONE: Self = Self(0);
    pub const CTRL: Self = Self(1);
    pub const ALT: Self = Self(2);
    pub const SHIFT: Self = Self(4);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct KeyEvent(pub KeyCode, pub Modifiers);
#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Cmd {
    Noop,
    AcceptLine,
    Abort,
}
pub struct DefaultEditor(());
impl config::Configurer for DefaultEditor {}
impl DefaultEditor {
    pub fn new() -> Result<Self> {
        Ok(Self(()))
    }
    pub fn bind_sequence(&mut self, _: impl Into<KeyEvent>, _: impl Into<Cmd>) -> Option<()> {
        None
    }
    pub fn load_history<P: AsRef<Path> + ?Sized>(&mut self, _: &P) -> Result<()> {
        Ok(())
    }
    pub fn save_history<P: AsRef<Path> + ?Sized>(&mut self, _: &P) -> Result<()> {
        Ok(())
    }
    pub fn add_history_entry<S: AsRef<str> + Into<String>>(&mut self, _: S) -> Result<bool> {
        Ok(true)
    }
    /// The prompt is shown between two NUL bytes, which tells the caller that the previous line has been dealt with.
    pub fn readline(&mut self, prompt: &str) -> Result<String> {
        use std::io::Write;
        let mut o = io::stdout();
        write!(o, "\0{prompt}\0\n")?;
        o.flush()?;
        let mut l = String::new();
        if io::stdin().read_line(&mut l)? == 0 {
            return Err(error::ReadlineError::Eof);
        }
        if l.ends_with('\n') {
            l.pop();
        }
        Ok(l)
    }
}
