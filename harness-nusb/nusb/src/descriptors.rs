use crate::sim::Ep;
use crate::transfer::{Direction, EndpointType};
#[derive(Clone)]
pub struct InterfaceAltSetting {
    pub(crate) number: u8,
    pub(crate) alt: u8,
    pub(crate) eps: Vec<Ep>,
}
impl InterfaceAltSetting {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn alternate_setting(&self) -> u8 {
        self.alt
    }
    pub fn num_endpoints(&self) -> u8 {
        self.eps.len() as u8
    }
    pub fn endpoints(&self) -> impl Iterator<Item = Endpoint> {
        self.eps.clone().into_iter().map(Endpoint)
    }
}
#[derive(Clone)]
pub struct Endpoint(pub(crate) Ep);
impl Endpoint {
    pub fn address(&self) -> u8 {
        self.0.address
    }
    pub fn direction(&self) -> Direction {
        if self.0.address & 0x80 != 0 {
            Direction::In
        } else {
            Direction::Out
        }
    }
    pub fn transfer_type(&self) -> EndpointType {
        self.0.kind
    }
    pub fn max_packet_size(&self) -> usize {
        self.0.mps
    }
}
