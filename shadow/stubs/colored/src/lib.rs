//! stand-in: no colours
pub type ColoredString = String;
pub trait Colorize: Sized + ToString {
    fn red(self) -> String { self.to_string() }
    fn green(self) -> String { self.to_string() }
    fn yellow(self) -> String { self.to_string() }
    fn cyan(self) -> String { self.to_string() }
    fn blue(self) -> String { self.to_string() }
    fn magenta(self) -> String { self.to_string() }
    fn bold(self) -> String { self.to_string() }
    fn black(self) -> String { self.to_string() }
    fn white(self) -> String { self.to_string() }
}
impl Colorize for &str {}
impl Colorize for String {}
