//! A stand-in for `nusb` 0.1: the same interface (as far as a client of bulk endpoints needs it), but
//! the devices and everything the host controller reports come from the harness, through [`sim`].
use std::io;
pub type Error = io::Error;
pub mod descriptors;
pub mod sim;
pub mod transfer;
use transfer::{Queue, RequestBuffer};

pub fn list_devices() -> Result<impl Iterator<Item = DeviceInfo>, Error> {
    let b = sim::BUS.lock().unwrap();
    if b.list_fails {
        return Err(io::Error::new(io::ErrorKind::Other, "no access to the bus"));
    }
    let v: Vec<DeviceInfo> = b
        .devices
        .iter()
        .enumerate()
        .map(|(n, d)| DeviceInfo {
            n,
            serial: d.serial.clone(),
            product: d.product.clone(),
            vid: d.vid,
            pid: d.pid,
            ifs: d
                .interfaces
                .iter()
                .map(|i| InterfaceInfo { number: i.number, class: i.class, subclass: i.subclass, protocol: 0, string: i.string.clone() })
                .collect(),
        })
        .collect();
    Ok(v.into_iter())
}
#[derive(Clone, Debug)]
pub struct DeviceInfo {
    n: usize,
    serial: Option<String>,
    product: Option<String>,
    vid: u16,
    pid: u16,
    ifs: Vec<InterfaceInfo>,
}
impl DeviceInfo {
    pub fn bus_number(&self) -> u8 {
        1
    }
    pub fn device_address(&self) -> u8 {
        self.n as u8 + 1
    }
    pub fn vendor_id(&self) -> u16 {
        self.vid
    }
    pub fn product_id(&self) -> u16 {
        self.pid
    }
    pub fn class(&self) -> u8 {
        0xEF
    }
    pub fn manufacturer_string(&self) -> Option<&str> {
        None
    }
    pub fn product_string(&self) -> Option<&str> {
        self.product.as_deref()
    }
    pub fn serial_number(&self) -> Option<&str> {
        self.serial.as_deref()
    }
    pub fn interfaces(&self) -> impl Iterator<Item = &InterfaceInfo> {
        self.ifs.iter()
    }
    pub fn open(&self) -> Result<Device, Error> {
        let b = sim::BUS.lock().unwrap();
        if b.devices[self.n].open_fails {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "cannot open"));
        }
        Ok(Device { n: self.n })
    }
}
#[derive(Clone, Debug)]
pub struct InterfaceInfo {
    number: u8,
    class: u8,
    subclass: u8,
    protocol: u8,
    string: Option<String>,
}
impl InterfaceInfo {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn class(&self) -> u8 {
        self.class
    }
    pub fn subclass(&self) -> u8 {
        self.subclass
    }
    pub fn protocol(&self) -> u8 {
        self.protocol
    }
    pub fn interface_string(&self) -> Option<&str> {
        self.string.as_deref()
    }
}
#[derive(Clone)]
pub struct Device {
    n: usize,
}
impl Device {
    pub fn claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        let mut b = sim::BUS.lock().unwrap();
        match b.devices[self.n].interfaces.iter().find(|i| i.number == interface) {
            Some(i) if !i.claim_fails => {
                let endpoints = i.endpoints.clone();
                b.claimed.push((self.n, interface));
                Ok(Interface { n: self.n, number: interface, endpoints })
            }
            _ => Err(io::Error::new(io::ErrorKind::NotFound, "cannot claim")),
        }
    }
    pub fn detach_and_claim_interface(&self, interface: u8) -> Result<Interface, Error> {
        self.claim_interface(interface)
    }
    pub fn set_configuration(&self, _configuration: u8) -> Result<(), Error> {
        Ok(())
    }
    pub fn reset(&self) -> Result<(), Error> {
        Ok(())
    }
}
#[derive(Clone)]
pub struct Interface {
    n: usize,
    number: u8,
    endpoints: Vec<Vec<sim::Ep>>,
}
impl Interface {
    pub fn interface_number(&self) -> u8 {
        self.number
    }
    pub fn set_alt_setting(&self, _alt_setting: u8) -> Result<(), Error> {
        Ok(())
    }
    pub fn descriptors(&self) -> impl Iterator<Item = descriptors::InterfaceAltSetting> {
        let n = self.number;
        self.endpoints
            .clone()
            .into_iter()
            .enumerate()
            .map(move |(alt, eps)| descriptors::InterfaceAltSetting { number: n, alt: alt as u8, eps })
    }
    pub fn bulk_in_queue(&self, endpoint: u8) -> Queue<RequestBuffer> {
        Queue::new(self.n, endpoint)
    }
    pub fn bulk_out_queue(&self, endpoint: u8) -> Queue<Vec<u8>> {
        Queue::new(self.n, endpoint)
    }
    pub fn bulk_in(&self, endpoint: u8, buf: RequestBuffer) -> transfer::TransferFuture<RequestBuffer> {
        transfer::TransferFuture::new(self.n, endpoint, buf)
    }
    pub fn bulk_out(&self, endpoint: u8, buf: Vec<u8>) -> transfer::TransferFuture<Vec<u8>> {
        transfer::TransferFuture::new(self.n, endpoint, buf)
    }
    pub fn clear_halt(&self, endpoint: u8) -> Result<(), Error> {
        sim::clear_halt(self.n, endpoint)
    }
}
