//! A Twitch chat server for the demonstration: real TLS over the loopback, reached because
//! `getaddrinfo` and `connect` of this process send irc.chat.twitch.tv:6697 to a local port.
#![allow(dead_code, static_mut_refs, clippy::all)]
use rustls::{Certificate, PrivateKey, ServerConfig, ServerConnection, StreamOwned};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU16, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

static PORT: AtomicU16 = AtomicU16::new(0);
pub static CONNS: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(_: *const libc::c_char, _: *const libc::c_char, _: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> libc::c_int {
  let sa = Box::leak(Box::new(std::mem::zeroed::<libc::sockaddr_in>()));
  sa.sin_family = libc::AF_INET as _;
  sa.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
  let ai = Box::leak(Box::new(std::mem::zeroed::<libc::addrinfo>()));
  ai.ai_family = libc::AF_INET;
  ai.ai_socktype = libc::SOCK_STREAM;
  ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as _;
  ai.ai_addr = sa as *mut _ as *mut libc::sockaddr;
  *res = ai;
  0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(_: *mut libc::addrinfo) {}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, sa: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
  let mut a = *(sa as *const libc::sockaddr_in);
  if a.sin_family == libc::AF_INET as u16 && a.sin_port == 6697u16.to_be() {
    a.sin_port = PORT.load(SeqCst).to_be();
  }
  libc::syscall(libc::SYS_connect, fd, &a as *const libc::sockaddr_in, len) as _
}

pub struct Conn {
  pub n: usize,
  pub tls: StreamOwned<ServerConnection, TcpStream>,
  buf: Vec<u8>,
}
fn files(name: &str) -> Vec<u8> {
  std::fs::read(format!("{}/{name}", std::env::var("DEMO_DIR").unwrap())).unwrap()
}
pub fn config() -> Arc<ServerConfig> {
  let cert = rustls_pemfile::certs(&mut &files("good.pem")[..]).unwrap().into_iter().map(Certificate).collect();
  let key = PrivateKey(rustls_pemfile::pkcs8_private_keys(&mut &files("good.key")[..]).unwrap().remove(0));
  Arc::new(ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(cert, key).unwrap())
}
/// serves every connection on a thread of its own; connections are numbered from 0
pub fn serve(f: impl Fn(Conn) + Send + Sync + 'static) {
  serve_tcp(move |n, tcp| f(Conn::new(n, tcp)))
}
pub fn serve_tcp(f: impl Fn(usize, TcpStream) + Send + Sync + 'static) {
  std::env::set_var("SSL_CERT_FILE", format!("{}/ca.pem", std::env::var("DEMO_DIR").unwrap()));
  let l = TcpListener::bind("127.0.0.1:0").unwrap();
  PORT.store(l.local_addr().unwrap().port(), SeqCst);
  let f = Arc::new(f);
  std::thread::spawn(move || {
    for tcp in l.incoming().flatten() {
      let f = f.clone();
      let n = CONNS.fetch_add(1, SeqCst);
      std::thread::spawn(move || f(n, tcp));
    }
  });
}
impl Conn {
  pub fn new(n: usize, tcp: TcpStream) -> Self {
    tcp.set_nodelay(true).unwrap();
    Conn { n, tls: StreamOwned::new(ServerConnection::new(config()).unwrap(), tcp), buf: vec![] }
  }
  /// the next line, without its ending; None at the end of the connection
  pub fn line(&mut self) -> Option<String> {
    let mut from = 0;
    loop {
      if let Some(i) = self.buf[from..].iter().position(|b| *b == b'\n').map(|i| from + i) {
        let l: Vec<u8> = self.buf.drain(..=i).collect();
        return Some(String::from_utf8(l).unwrap().trim_end_matches(['\r', '\n']).to_string());
      }
      from = self.buf.len();
      let mut b = [0; 65536];
      match self.tls.read(&mut b) {
        Ok(0) | Err(_) => return None,
        Ok(n) => self.buf.extend_from_slice(&b[..n]),
      }
    }
  }
  pub fn say(&mut self, s: &str) {
    let _ = self.tls.write_all(s.as_bytes());
    let _ = self.tls.flush();
  }
  /// CAP, PASS and NICK, in the order they came
  pub fn asked(&mut self) -> Vec<String> {
    (0..3).filter_map(|_| self.line()).collect()
  }
  pub fn welcome(&mut self) -> Vec<String> {
    let v = self.asked();
    self.say(":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n");
    self.say(":tmi.twitch.tv 001 justinfan12345 :Welcome, GLHF!\r\n");
    v
  }
  pub fn wait(&self, ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
  }
  /// keep the connection open until the client closes it
  pub fn hold(&mut self) {
    while self.line().is_some() {}
  }
}
pub fn chat(i: impl std::fmt::Display) -> String {
  format!("@id=m{i};room-id=1 :a!a@a.tmi.twitch.tv PRIVMSG #x :message {i}\r\n")
}
/// runs `f`, which must end within `secs`
pub fn run<T>(secs: u64, f: impl std::future::Future<Output = T>) -> T {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async { tokio::time::timeout(Duration::from_secs(secs), f).await.expect("demo: did not finish in time") })
}
pub fn backoff(ms: u64, tries: Option<u64>) -> tmi::client::Backoff {
  tmi::client::Backoff { max_tries: tries, initial_delay: Duration::from_millis(ms), delay_multiplier: 1, max_delay: Duration::from_millis(ms) }
}
pub async fn client() -> tmi::Client {
  tmi::Client::builder().backoff(backoff(10, Some(8))).connect().await.expect("demo: connect")
}
/// the number of sockets of this process which are connected to the server
pub fn open() -> usize {
  let mut n = 0;
  for fd in 3..1024 {
    let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
    let mut len = std::mem::size_of_val(&a) as libc::socklen_t;
    let r = unsafe { libc::getpeername(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut len) };
    n += usize::from(r == 0 && a.sin_port == PORT.load(SeqCst).to_be());
  }
  n
}
