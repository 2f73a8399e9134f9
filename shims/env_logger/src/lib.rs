//! Stand-in: no logging.
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Self }
    pub fn from_default_env() -> Self { Self }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
    pub fn init(&mut self) {}
}
pub fn builder() -> Builder { Builder }
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> { Ok(()) }
