//! ctrlc: the harness calls the handler.
use std::fmt;

#[derive(Debug)]
pub enum Error {
    NoSuchSignal(i32),
    MultipleHandlers,
    System(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}

pub fn set_handler<F: FnMut() + 'static + Send>(f: F) -> Result<(), Error> {
    vmc_std::rt::point("install the signal handler");
    vmc_std::world::fault(vmc_std::rt::world().faults.handler, "install the signal handler", &[12]).map_err(Error::System)?;
    let w = vmc_std::rt::world();
    if w.handler.is_some() {
        return Err(Error::MultipleHandlers);
    }
    w.handler = Some(Box::new(f));
    Ok(())
}
pub fn try_set_handler<F: FnMut() + 'static + Send>(f: F) -> Result<(), Error> {
    set_handler(f)
}
