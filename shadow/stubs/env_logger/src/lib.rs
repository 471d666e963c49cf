pub struct Env;
impl Default for Env { fn default() -> Self { Env } }
pub struct Builder;
impl Builder {
    pub fn from_env(_e: Env) -> Self { Builder }
    pub fn format<F>(&mut self, _f: F) -> &mut Self where F: Fn(&mut Vec<u8>, &log::Record<'_>) -> std::io::Result<()> + Sync + Send + 'static { self }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
