//! tracing-subscriber: the harness has its own subscriber; configuring one here only says what reaches the log.
use tracing::level_filters::LevelFilter;

fn reaches(l: LevelFilter) {
    let n = [LevelFilter::OFF, LevelFilter::ERROR, LevelFilter::WARN, LevelFilter::INFO, LevelFilter::DEBUG].iter().position(|x| *x == l);
    if let Some(w) = vmc_std::rt::try_world() {
        w.log_level = n.unwrap_or(5) as u8;
    }
}

pub struct Builder(LevelFilter);
impl Default for Builder {
    fn default() -> Self {
        Builder(LevelFilter::INFO)
    }
}
impl Builder {
    pub fn with_max_level(self, l: impl Into<LevelFilter>) -> Self {
        Builder(l.into())
    }
    pub fn with_target(self, _: bool) -> Self {
        self
    }
    pub fn with_ansi(self, _: bool) -> Self {
        self
    }
    pub fn with_level(self, _: bool) -> Self {
        self
    }
    pub fn with_thread_names(self, _: bool) -> Self {
        self
    }
    pub fn with_thread_ids(self, _: bool) -> Self {
        self
    }
    pub fn with_writer<W>(self, _: W) -> Self {
        self
    }
    pub fn without_time(self) -> Self {
        self
    }
    pub fn compact(self) -> Self {
        self
    }
    pub fn pretty(self) -> Self {
        self
    }
    pub fn init(self) {
        reaches(self.0)
    }
    pub fn try_init(self) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        reaches(self.0);
        Ok(())
    }
}
pub fn fmt() -> Builder {
    Builder::default()
}
pub mod fmt {
    pub fn init() {
        super::reaches(super::LevelFilter::INFO)
    }
    pub fn try_init() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        init();
        Ok(())
    }
}
