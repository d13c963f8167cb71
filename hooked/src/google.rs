//! A stand-in for Google's servers: it answers as it's told and keeps what it was asked.
use crate::cmd::{io, Ran};
use crate::rt::Fail;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::{ServerConfig, ServerConnection, StreamOwned};
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

pub const CA: &str = include_str!("../data/ca.pem");
pub const ACCOUNT_KEY: &str = include_str!("../data/account.key");

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Step {
    Token,
    Copy,
    Get,
    Update,
}

#[derive(Clone, Debug)]
pub struct Request {
    pub method: String,
    pub host: String,
    pub path: String,
    pub authorization: String,
    pub body: String,
}
impl Request {
    pub fn step(&self) -> Option<Step> {
        let path = self.path.split('?').next().unwrap_or("");
        match (self.method.as_str(), self.host.as_str()) {
            ("POST", "oauth2.googleapis.com" | "accounts.google.com") if path.contains("/token") => Some(Step::Token),
            ("POST", "www.googleapis.com") if path.starts_with("/drive/v3/files/") && path.ends_with("/copy") => Some(Step::Copy),
            ("GET", "sheets.googleapis.com") if path.starts_with("/v4/spreadsheets/") => Some(Step::Get),
            ("POST", "sheets.googleapis.com") if path.starts_with("/v4/spreadsheets/") && path.ends_with(":batchUpdate") => Some(Step::Update),
            _ => None,
        }
    }
    /// of the spreadsheet
    pub fn id(&self) -> String {
        let path = self.path.split('?').next().unwrap_or("");
        let part = path.split('/').nth(if self.step() == Some(Step::Copy) { 4 } else { 3 }).unwrap_or("");
        decode(part.strip_suffix(":batchUpdate").unwrap_or(part))
    }
}

/// %xx
pub fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        match (b[i], s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(h)) => {
                out.push(h);
                i += 3;
            }
            (c, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    /// status and body
    Say(u16, String),
    /// the connection is closed when the request has come
    Close,
    /// and when so many bytes of the answer have gone
    Cut(usize, String),
}

type Script = Box<dyn FnMut(&Request) -> Answer + Send>;

#[derive(Default)]
struct State {
    script: Option<Script>,
    seen: Vec<Request>,
    /// to tell the connections of this run from those of an earlier one
    run: u64,
}

pub struct Server {
    pub port: u16,
    state: Arc<Mutex<State>>,
}

impl Server {
    pub fn start() -> Result<Server, Fail> {
        let certs: Vec<CertificateDer<'static>> = rustls_pemfile::certs(&mut include_bytes!("../data/server.pem").as_slice()).collect::<Result<_, _>>().map_err(io)?;
        let key: PrivateKeyDer<'static> = rustls_pemfile::private_key(&mut include_bytes!("../data/server.key").as_slice()).map_err(io)?.expect("a key");
        let config = ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
            .with_safe_default_protocol_versions()
            .expect("versions")
            .with_no_client_auth()
            .with_single_cert(certs, key)
            .map_err(|e| Fail::new(format!("MACHINERY: {e}")))?;
        let config = Arc::new(config);
        let listener = TcpListener::bind("127.0.0.1:0").map_err(io)?;
        let port = listener.local_addr().map_err(io)?.port();
        let state = Arc::new(Mutex::new(State::default()));
        let s = state.clone();
        std::thread::spawn(move || {
            for stream in listener.incoming().flatten() {
                let (config, state) = (config.clone(), s.clone());
                std::thread::spawn(move || serve(stream, config, &state));
            }
        });
        Ok(Server { port, state })
    }

    /// Run the command, answering its requests like this.
    pub fn during(&self, script: Script, run: impl FnOnce() -> Result<Ran, Fail>) -> Result<(Ran, Vec<Request>), Fail> {
        {
            let mut s = self.state.lock().unwrap();
            s.run += 1;
            s.seen.clear();
            s.script = Some(script);
        }
        let ran = run()?;
        let mut s = self.state.lock().unwrap();
        s.run += 1;
        s.script = None;
        Ok((ran, std::mem::take(&mut s.seen)))
    }
}

fn serve(stream: TcpStream, config: Arc<ServerConfig>, state: &Mutex<State>) {
    let run = state.lock().unwrap().run;
    let _ = stream.set_nodelay(true);
    let Ok(conn) = ServerConnection::new(config) else { return };
    let mut s = BufReader::new(StreamOwned::new(conn, stream));
    while let Ok(Some(r)) = request(&mut s) {
        let answer = {
            let mut st = state.lock().unwrap();
            if st.run != run {
                return;
            }
            let Some(script) = &mut st.script else { return };
            let a = script(&r);
            st.seen.push(r);
            a
        };
        let text = |status: u16, body: &str| format!("HTTP/1.1 {status} Any\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}", body.len());
        let out = s.get_mut();
        match answer {
            Answer::Say(status, body) => {
                if out.write_all(text(status, &body).as_bytes()).and_then(|()| out.flush()).is_err() {
                    return;
                }
            }
            Answer::Close => return,
            Answer::Cut(n, body) => {
                let t = text(200, &body);
                let _ = out.write_all(&t.as_bytes()[..n.min(t.len() - 1)]).and_then(|()| out.flush());
                return;
            }
        }
    }
}

fn request(s: &mut impl BufRead) -> std::io::Result<Option<Request>> {
    let mut line = String::new();
    if s.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    let mut first = line.split_whitespace();
    let mut r = Request {
        method: first.next().unwrap_or("").to_string(),
        host: String::new(),
        path: first.next().unwrap_or("").to_string(),
        authorization: String::new(),
        body: String::new(),
    };
    let (mut len, mut chunked) = (0, false);
    loop {
        line.clear();
        s.read_line(&mut line)?;
        let Some((k, v)) = line.trim_end().split_once(':') else { break };
        let v = v.trim();
        match k.to_ascii_lowercase().as_str() {
            "host" => r.host = v.trim_end_matches(":443").to_string(),
            "authorization" => r.authorization = v.to_string(),
            "content-length" => len = v.parse().unwrap_or(0),
            "transfer-encoding" => chunked = v.contains("chunked"),
            _ => (),
        }
    }
    let mut body = vec![];
    if chunked {
        loop {
            line.clear();
            s.read_line(&mut line)?;
            let n = usize::from_str_radix(line.trim(), 16).unwrap_or(0);
            let mut b = vec![0; n + 2];
            s.read_exact(&mut b)?;
            if n == 0 {
                break;
            }
            body.extend(&b[..n]);
        }
    } else {
        body.resize(len, 0);
        s.read_exact(&mut body)?;
    }
    r.body = String::from_utf8_lossy(&body).into_owned();
    Ok(Some(r))
}

/// base64 with either alphabet
pub fn unbase64(s: &str) -> Vec<u8> {
    let (mut bits, mut n, mut out) = (0u32, 0, vec![]);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => continue,
        };
        bits = bits << 6 | u32::from(v);
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
        }
    }
    out
}

/// who asks for a token: the account's address, or the refresh token
pub fn identity(token_request: &str) -> String {
    let field = |k: &str| token_request.split('&').find_map(|p| p.strip_prefix(k)?.strip_prefix('=')).map(decode);
    if let Some(r) = field("refresh_token") {
        return r;
    }
    let jwt = field("assertion").unwrap_or_default();
    let claims = unbase64(jwt.split('.').nth(1).unwrap_or(""));
    let claims: serde_json::Value = serde_json::from_slice(&claims).unwrap_or_default();
    claims["iss"].as_str().unwrap_or("nobody").to_string()
}
