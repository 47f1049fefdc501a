//! C30: credentials.
use crate::sym::*;
use crate::world::*;
use tmi::Credentials;

fn any(b: u8) -> bool {
  b < 0x80
}
/// Bytes that debug output does not escape and that do not occur in the rest of it.
fn secret(b: u8) -> bool {
  (b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z') & (b != b'C')
}

fn contains(a: &str, b: &str) -> bool {
  let (a, b) = (a.as_bytes(), b.as_bytes());
  let mut r = false;
  let mut i = 0;
  while i + b.len() <= a.len() {
    let mut eq = true;
    for k in 0..b.len() {
      eq &= a[i + k] == b[k];
    }
    r |= eq;
    i += 1;
  }
  r
}

#[no_mangle]
pub extern "C" fn c30_given() {
  reset();
  let mut l = L::new();
  // any login, those of the anonymous kind included
  let st = l.len();
  match choice(4) {
    0 => l.hole_u(0, by(3, 5), any),
    1 => {
      l.s("justinfan");
      l.hole_u(0, 1, any)
    }
    2 => l.s("justinfan12345"),
    _ => l.s("forsen"),
  };
  let login = st..l.len();
  let token = if flag() {
    l.hole_u(0, by(4, 8), any)
  } else {
    let st = l.len();
    l.s("oauth:");
    l.sym(1, any);
    st..l.len()
  };
  let (login, token) = (l.get(&login), l.get(&token));
  let c = Credentials::new(login, token);
  check(!c.is_anon(), 1);
  check_str(c.login(), login, 2);
  check_opt(c.token(), Some(token), 3);
  let d = c.clone();
  check_str(d.login(), login, 4);
  check_opt(d.token(), Some(token), 5);
  check(!d.is_anon(), 6);
  reach(1);
}

/// Debug output does not depend on the token and shows the login.
#[no_mangle]
pub extern "C" fn c30_debug() {
  reset();
  let mut l = L::new();
  let login = l.hole(1, by(2, 4), |b| (b >= b'a') & (b <= b'z'));
  let n = pick(&[8, 6, 14, 30]);
  let token = match choice(2) {
    0 => l.sym(n, secret),
    _ => {
      let st = l.s("oauth:").start;
      l.sym(n, secret);
      st..l.len()
    }
  };
  let (login, token) = (l.get(&login), l.get(&token));
  let c = Credentials::new(login, token);
  let out = match choice(6) {
    0 => format!("{c:?}"),
    1 => format!("{c:#?}"),
    2 => format!("{:?}", Some((&c, 1))),
    k => {
      let b = tmi::Client::builder().credentials(c.clone());
      w().plan.push({
        let mut a = Attempt::new();
        a.input = WELCOME.as_bytes().to_vec();
        a
      });
      let Some(Ok(client)) = run(b.connect()) else {
        fail(9);
        return;
      };
      check_str(client.credentials().login(), login, 10);
      check_opt(client.credentials().token(), Some(token), 11);
      match k {
        3 => format!("{:?}", client.config()),
        4 => format!("{:#?}", client.config()),
        _ => format!("{:?}", client.credentials()),
      }
    }
  };
  observe(out.as_bytes());
  check(contains(&out, login), 7);
  // no part of the token that could not be there by chance
  let part = token.len() - n..token.len();
  for i in part.start..part.end - 3 {
    check(!contains(&out, &token[i..i + 4]), 8);
  }
  reach(out.len() as u32);
}

#[no_mangle]
pub extern "C" fn c30_anonymous() {
  reset();
  w().random = true;
  let c = if flag() { Credentials::anon() } else { Credentials::default() };
  check(c.is_anon(), 12);
  check(c.token().is_none(), 13);
  let l = c.login();
  check(l.len() == 14, 14);
  check(l.starts_with("justinfan"), 15);
  let mut digits = true;
  for b in l.as_bytes()[l.len().min(9)..].iter() {
    digits &= b.is_ascii_digit();
  }
  check(digits, 16);
  reach(1);
}
