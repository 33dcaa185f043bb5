//! Stand-in for easy_upnp: records what the gateway is asked for and fails when told to.
use std::sync::Mutex;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PortMappingProtocol { TCP, UDP }
#[derive(Debug)]
pub struct UpnpConfig { pub address: Option<std::net::Ipv4Addr>, pub port: u16, pub protocol: PortMappingProtocol, pub duration: u32, pub comment: String }
#[derive(Debug)]
pub enum Error { NoMatchingGateway }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no gateway") } }
impl std::error::Error for Error {}
/// (add?, port, protocol, duration, answered with success)
pub static LOG: Mutex<Vec<(bool, u16, PortMappingProtocol, u32, bool)>> = Mutex::new(Vec::new());
/// outcomes of the next calls, last first; empty: success
pub static PLAN: Mutex<Vec<bool>> = Mutex::new(Vec::new());
fn ask(add: bool, c: UpnpConfig) -> Result<(), Error> {
    let ok = PLAN.lock().unwrap().pop().unwrap_or(true);
    LOG.lock().unwrap().push((add, c.port, c.protocol, c.duration, ok));
    if ok { Ok(()) } else { Err(Error::NoMatchingGateway) }
}
pub fn add_ports(c: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> { c.into_iter().map(|c| ask(true, c)) }
pub fn delete_ports(c: impl IntoIterator<Item = UpnpConfig>) -> impl Iterator<Item = Result<(), Error>> { c.into_iter().map(|c| ask(false, c)) }
