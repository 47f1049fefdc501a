//! A stand-in for the chat server: TLS on the loopback interface, with the
//! host name resolved to it inside this process only.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use tokio_rustls::rustls;

pub type Tls = rustls::StreamOwned<rustls::ServerConnection, TcpStream>;

#[repr(C)]
struct Ai { flags: i32, family: i32, socktype: i32, proto: i32, len: u32, addr: *mut u8, canon: *mut u8, next: *mut Ai }

#[no_mangle]
unsafe extern "C" fn getaddrinfo(_: *const u8, _: *const u8, _: *const u8, out: *mut *mut Ai) -> i32 {
  let addr = Box::leak(Box::new([0u8; 16]));
  addr[0] = 2; // AF_INET
  addr[4..8].copy_from_slice(&[127, 0, 0, 1]);
  *out = Box::leak(Box::new(Ai { flags: 0, family: 2, socktype: 1, proto: 6, len: 16, addr: addr.as_mut_ptr(), canon: std::ptr::null_mut(), next: std::ptr::null_mut() }));
  0
}
#[no_mangle]
unsafe extern "C" fn freeaddrinfo(_: *mut Ai) {}

/// Serves connections in turn: `script(n, stream)` has the n-th one, after its
/// TLS handshake; `None` closes it before that.
pub fn serve(script: impl Fn(usize, Option<&mut Tls>) -> bool + Send + 'static) -> Arc<Mutex<Vec<std::time::Instant>>> {
  let dir = std::path::PathBuf::from(std::env::var("KIT").unwrap());
  std::env::set_var("SSL_CERT_FILE", dir.join("ca.pem"));
  let cert = rustls::Certificate(std::fs::read(dir.join("leaf.der")).unwrap());
  let key = rustls::PrivateKey(std::fs::read(dir.join("leaf.p8")).unwrap());
  let config = Arc::new(rustls::ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(vec![cert], key).unwrap());
  let listener = TcpListener::bind("127.0.0.1:6697").expect("port 6697 of the loopback interface");
  let times = Arc::new(Mutex::new(Vec::new()));
  let t = times.clone();
  std::thread::spawn(move || {
    let mut n = 0;
    for tcp in listener.incoming() {
      let tcp = tcp.unwrap();
      tcp.set_nodelay(true).unwrap();
      t.lock().unwrap().push(std::time::Instant::now());
      if script(n, None) {
        let mut tls = rustls::StreamOwned::new(rustls::ServerConnection::new(config.clone()).unwrap(), tcp);
        script(n, Some(&mut tls));
        let _ = tls.flush();
      }
      n += 1;
    }
  });
  times
}

/// reads one line (up to LF); empty at the end of the stream
pub fn line(s: &mut Tls) -> String {
  let mut out = Vec::new();
  let mut b = [0u8];
  while let Ok(1) = s.read(&mut b) {
    out.push(b[0]);
    if b[0] == b'\n' { break; }
  }
  String::from_utf8(out).unwrap()
}

pub fn say(s: &mut Tls, text: &str) {
  let _ = s.write_all(text.as_bytes());
  let _ = s.flush();
}

/// the server's side of the handshake; returns the three lines of the client
pub fn welcome(s: &mut Tls) -> Vec<String> {
  let lines = (0..3).map(|_| line(s)).collect();
  say(s, ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n:tmi.twitch.tv 001 me :Welcome, GLHF!\r\n");
  lines
}

pub fn run<T>(f: impl std::future::Future<Output = T>) -> T {
  tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
    tokio::time::timeout(std::time::Duration::from_secs(60), f).await.expect("done within a minute")
  })
}
