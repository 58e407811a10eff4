use std::io::Write;
pub struct Builder;
pub mod fmt { pub struct Formatter(pub Vec<u8>); impl std::io::Write for Formatter { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } }
pub enum Target { Stdout, Stderr, Pipe(Box<dyn Write + Send + 'static>) }
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn format<F>(&mut self, _f: F) -> &mut Self where F: Fn(&mut fmt::Formatter, &log::Record) -> std::io::Result<()> + Sync + Send + 'static { self }
    pub fn target(&mut self, _t: Target) -> &mut Self { self }
    pub fn filter(&mut self, _m: Option<&str>, _l: log::LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _l: log::LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _m: &str, _l: log::LevelFilter) -> &mut Self { self }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
pub fn init() {}
