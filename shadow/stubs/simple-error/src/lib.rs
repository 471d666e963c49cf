#[derive(Debug, Clone, PartialEq)]
pub struct SimpleError(pub String);
impl std::fmt::Display for SimpleError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for SimpleError {}
impl SimpleError { pub fn new<T: Into<String>>(t: T) -> Self { SimpleError(t.into()) } }
#[macro_export]
macro_rules! bail { ($e:expr) => { return Err(::std::convert::From::from($e)) }; ($f:expr, $($a:tt)+) => { return Err(::std::convert::From::from(format!($f, $($a)+))) }; }
