//! Model of the part of tiny_http 0.6.2 a request handler uses.  The harness puts requests in
//! `INBOX` (and says so on `NEWS`); a server hands them out in order and waits for more; every answer goes to
//! `OUTBOX` in order.  `SERVING` holds the addresses servers were asked to listen on.
//! A request dropped without an answer is answered 500, as tiny_http does.
use std::io::{Cursor, Read};
use std::net::{SocketAddr, ToSocketAddrs};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Method { Get, Post, Put }
pub static INBOX: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());
pub static NEWS: Condvar = Condvar::new();
pub static SERVING: Mutex<Vec<SocketAddr>> = Mutex::new(Vec::new());
pub static OUTBOX: Mutex<Vec<(u16, Vec<u8>)>> = Mutex::new(Vec::new());

pub struct Request { method: Method, url: String, body: Cursor<Vec<u8>>, len: usize, answered: bool }
impl Request {
    pub fn method(&self) -> &Method { &self.method }
    pub fn url(&self) -> &str { &self.url }
    pub fn body_length(&self) -> Option<usize> { Some(self.len) }
    pub fn as_reader(&mut self) -> &mut dyn Read { &mut self.body }
    pub fn respond<R: Read>(mut self, r: Response<R>) -> Result<(), std::io::Error> {
        let Response(code, mut rd) = r;
        let mut v = Vec::new();
        rd.read_to_end(&mut v)?;
        self.answered = true;
        OUTBOX.lock().unwrap().push((code, v));
        Ok(())
    }
}
impl Drop for Request {
    fn drop(&mut self) { if !self.answered { OUTBOX.lock().unwrap().push((500, Vec::new())) } }
}

#[derive(Clone, Copy)]
pub struct StatusCode(pub u16);
impl From<u16> for StatusCode { fn from(c: u16) -> Self { StatusCode(c) } }
impl From<i32> for StatusCode { fn from(c: i32) -> Self { StatusCode(c as u16) } }

pub struct Response<R>(u16, R);
impl Response<std::io::Empty> {
    pub fn empty<S: Into<StatusCode>>(s: S) -> Self { Response(s.into().0, std::io::empty()) }
}
impl Response<Cursor<Vec<u8>>> {
    pub fn from_data<D: Into<Vec<u8>>>(d: D) -> Self { Response(200, Cursor::new(d.into())) }
    pub fn from_string<D: Into<String>>(d: D) -> Self { Response(200, Cursor::new(d.into().into_bytes())) }
}
impl<R: Read> Response<R> {
    pub fn with_status_code<S: Into<StatusCode>>(mut self, s: S) -> Self { self.0 = s.into().0; self }
}

pub struct Server(SocketAddr);
impl Server {
    pub fn http<A: ToSocketAddrs>(a: A) -> Result<Server, Box<dyn std::error::Error + Send + Sync + 'static>> {
        let a = a.to_socket_addrs()?.next().ok_or("no address")?;
        SERVING.lock().unwrap().push(a);
        Ok(Server(a))
    }
    pub fn server_addr(&self) -> SocketAddr { self.0 }
    pub fn incoming_requests(&self) -> Incoming { Incoming }
    pub fn recv(&self) -> Result<Request, std::io::Error> { Ok(take(None).unwrap()) }
    pub fn recv_timeout(&self, d: Duration) -> Result<Option<Request>, std::io::Error> { Ok(take(Some(d))) }
    pub fn try_recv(&self) -> Result<Option<Request>, std::io::Error> { Ok(take(Some(Duration::from_secs(0)))) }
}
fn take(d: Option<Duration>) -> Option<Request> {
    let mut g = INBOX.lock().unwrap();
    while g.is_empty() {
        match d {
            None => g = NEWS.wait(g).unwrap(),
            Some(d) => { let (h, t) = NEWS.wait_timeout(g, d).unwrap(); g = h; if t.timed_out() && g.is_empty() { return None } }
        }
    }
    let (url, b) = g.remove(0);
    Some(Request { method: Method::Post, url, len: b.len(), body: Cursor::new(b), answered: false })
}
pub struct Incoming;
impl Iterator for Incoming {
    type Item = Request;
    fn next(&mut self) -> Option<Request> { take(None) }
}
