//! Stands for termcolor: no colours.
use std::io;
pub enum ColorChoice {
    Always,
    AlwaysAnsi,
    Auto,
    Never,
}
pub enum Color {
    Black,
    Blue,
    Green,
    Red,
    Cyan,
    Magenta,
    Yellow,
    White,
}
#[derive(Default)]
pub struct ColorSpec;
impl ColorSpec {
    pub fn new() -> Self {
        Self
    }
    pub fn set_fg(&mut self, _: Option<Color>) -> &mut Self {
        self
    }
    pub fn set_bold(&mut self, _: bool) -> &mut Self {
        self
    }
}
pub struct StandardStream(Box<dyn io::Write>);
impl StandardStream {
    pub fn stderr(_: ColorChoice) -> Self {
        Self(Box::new(io::stderr()))
    }
    pub fn stdout(_: ColorChoice) -> Self {
        Self(Box::new(io::stdout()))
    }
}
impl io::Write for StandardStream {
    fn write(&mut self, bytes: &[u8]) -> io::Result<usize> {
        self.0.write(bytes)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
pub trait WriteColor: io::Write {
    fn set_color(&mut self, _: &ColorSpec) -> io::Result<()> {
        Ok(())
    }
    fn reset(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl WriteColor for StandardStream {}
