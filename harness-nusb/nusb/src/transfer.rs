use crate::{sim, Error};
use std::collections::VecDeque;
use std::fmt::Display;
use std::future::{poll_fn, Future};
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum EndpointType {
    Control = 0,
    Isochronous = 1,
    Bulk = 2,
    Interrupt = 3,
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Direction {
    Out = 0,
    In = 1,
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum TransferError {
    Cancelled,
    Stall,
    Disconnected,
    Fault,
    Unknown,
}
impl Display for TransferError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TransferError {}
impl From<TransferError> for std::io::Error {
    fn from(value: TransferError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, value)
    }
}
#[derive(Debug, Clone)]
#[must_use]
pub struct Completion<T> {
    pub data: T,
    pub status: Result<(), TransferError>,
}
impl<T> Completion<T> {
    pub fn into_result(self) -> Result<T, TransferError> {
        self.status.map(|()| self.data)
    }
}
pub struct RequestBuffer {
    pub(crate) len: usize,
}
impl RequestBuffer {
    pub fn new(len: usize) -> RequestBuffer {
        RequestBuffer { len }
    }
    pub fn reuse(_v: Vec<u8>, len: usize) -> RequestBuffer {
        RequestBuffer { len }
    }
}
#[derive(Debug)]
pub struct ResponseBuffer {
    buf: Vec<u8>,
    len: usize,
}
impl ResponseBuffer {
    pub fn actual_length(&self) -> usize {
        self.len
    }
    pub fn reuse(self) -> Vec<u8> {
        self.buf
    }
}
pub trait TransferRequest {
    type Response;
    #[doc(hidden)]
    fn start(self, dev: usize, ep: u8) -> u64;
    #[doc(hidden)]
    fn finish(data: Vec<u8>, done: usize, status: Result<(), TransferError>) -> Completion<Self::Response>;
}
impl TransferRequest for RequestBuffer {
    type Response = Vec<u8>;
    fn start(self, dev: usize, ep: u8) -> u64 {
        sim::submit(dev, ep, vec![], self.len)
    }
    fn finish(data: Vec<u8>, _done: usize, status: Result<(), TransferError>) -> Completion<Vec<u8>> {
        Completion { data, status }
    }
}
impl TransferRequest for Vec<u8> {
    type Response = ResponseBuffer;
    fn start(self, dev: usize, ep: u8) -> u64 {
        sim::submit(dev, ep, self, 0)
    }
    fn finish(data: Vec<u8>, done: usize, status: Result<(), TransferError>) -> Completion<ResponseBuffer> {
        Completion { data: ResponseBuffer { buf: data, len: done }, status }
    }
}
pub struct Queue<R: TransferRequest> {
    dev: usize,
    endpoint: u8,
    pending: VecDeque<u64>,
    bufs: PhantomData<R>,
}
impl<R> Queue<R>
where
    R: TransferRequest + Send + Sync,
{
    pub(crate) fn new(dev: usize, endpoint: u8) -> Self {
        Queue { dev, endpoint, pending: VecDeque::new(), bufs: PhantomData }
    }
    pub fn submit(&mut self, data: R) {
        self.pending.push_back(data.start(self.dev, self.endpoint));
    }
    pub fn next_complete<'a>(&'a mut self) -> impl Future<Output = Completion<R::Response>> + Unpin + Send + Sync + 'a {
        poll_fn(|cx| self.poll_next(cx))
    }
    pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Completion<R::Response>> {
        let id = *self.pending.front().expect("queue should have pending transfers when calling next_complete");
        match sim::poll(self.dev, self.endpoint, id, cx) {
            Some((data, done, status)) => {
                self.pending.pop_front();
                Poll::Ready(R::finish(data, done, status))
            }
            None => Poll::Pending,
        }
    }
    pub fn pending(&self) -> usize {
        self.pending.len()
    }
    pub fn cancel_all(&mut self) {
        for id in self.pending.iter().rev() {
            sim::cancel(self.dev, self.endpoint, *id);
        }
    }
    pub fn clear_halt(&mut self) -> Result<(), Error> {
        sim::clear_halt(self.dev, self.endpoint)
    }
}
impl<R: TransferRequest> Drop for Queue<R> {
    fn drop(&mut self) {
        for id in self.pending.drain(..) {
            sim::forget(self.dev, self.endpoint, id);
        }
    }
}
pub struct TransferFuture<R: TransferRequest> {
    dev: usize,
    endpoint: u8,
    id: Option<u64>,
    bufs: PhantomData<fn() -> R>,
}
impl<R: TransferRequest> TransferFuture<R> {
    pub(crate) fn new(dev: usize, endpoint: u8, r: R) -> Self {
        TransferFuture { dev, endpoint, id: Some(r.start(dev, endpoint)), bufs: PhantomData }
    }
    pub fn cancel(&mut self) {
        if let Some(id) = self.id {
            sim::cancel(self.dev, self.endpoint, id);
        }
    }
}
impl<R: TransferRequest> Future for TransferFuture<R> {
    type Output = Completion<R::Response>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.id.expect("polled after completion");
        match sim::poll(self.dev, self.endpoint, id, cx) {
            Some((data, done, status)) => {
                self.id = None;
                Poll::Ready(R::finish(data, done, status))
            }
            None => Poll::Pending,
        }
    }
}
impl<R: TransferRequest> Drop for TransferFuture<R> {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            sim::forget(self.dev, self.endpoint, id);
        }
    }
}
