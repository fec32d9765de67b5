//! The scripted server's half of RFC 6455: just enough to answer the upgrade request, to frame what
//! the server sends and to take apart what the client writes, independently of the WebSocket
//! library the client uses.

use async_tungstenite::tungstenite::{handshake::server::create_response, http};

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub fin: bool,
    pub op: u8,
    pub masked: bool,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct HttpReq {
    pub line: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
}

/// Take a complete HTTP request off the front of `buf`.
pub fn take_request(buf: &mut Vec<u8>) -> Option<HttpReq> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
    let head: Vec<u8> = buf.drain(..end).collect();
    let text = String::from_utf8_lossy(&head).to_string();
    let mut lines = text.split("\r\n");
    let line = lines.next().unwrap_or("").to_string();
    let target = line.split(' ').nth(1).unwrap_or("").to_string();
    let headers = lines
        .filter(|l| !l.is_empty())
        .map(|l| {
            let mut it = l.splitn(2, ':');
            (
                it.next().unwrap_or("").trim().to_string(),
                it.next().unwrap_or("").trim().to_string(),
            )
        })
        .collect();
    Some(HttpReq {
        line,
        target,
        headers,
    })
}

/// The bytes of the 101 response for `req`, or None if it is no proper upgrade request.
pub fn accept_response(req: &HttpReq) -> Option<Vec<u8>> {
    let mut b = http::Request::builder().method("GET").uri(req.target.as_str());
    for (k, v) in &req.headers {
        b = b.header(k.as_str(), v.as_str());
    }
    let r = b.body(()).ok()?;
    let resp = create_response(&r).ok()?;
    let mut out = b"HTTP/1.1 101 Switching Protocols\r\n".to_vec();
    for (k, v) in resp.headers() {
        out.extend_from_slice(k.as_str().as_bytes());
        out.extend_from_slice(b": ");
        out.extend_from_slice(v.as_bytes());
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"\r\n");
    Some(out)
}

pub fn encode(op: u8, fin: bool, data: &[u8]) -> Vec<u8> {
    let mut v = vec![(if fin { 0x80 } else { 0 }) | op];
    if data.len() < 126 {
        v.push(data.len() as u8);
    } else if data.len() < 65536 {
        v.push(126);
        v.extend_from_slice(&(data.len() as u16).to_be_bytes());
    } else {
        v.push(127);
        v.extend_from_slice(&(data.len() as u64).to_be_bytes());
    }
    v.extend_from_slice(data);
    v
}

/// Take the next complete frame off the front of `buf`, unmasked.
pub fn take_frame(buf: &mut Vec<u8>) -> Option<Frame> {
    if buf.len() < 2 {
        return None;
    }
    let fin = buf[0] & 0x80 != 0;
    let op = buf[0] & 0x0f;
    let masked = buf[1] & 0x80 != 0;
    let mut len = (buf[1] & 0x7f) as usize;
    let mut p = 2;
    if len == 126 {
        if buf.len() < 4 {
            return None;
        }
        len = u16::from_be_bytes([buf[2], buf[3]]) as usize;
        p = 4;
    } else if len == 127 {
        if buf.len() < 10 {
            return None;
        }
        let mut a = [0u8; 8];
        a.copy_from_slice(&buf[2..10]);
        len = u64::from_be_bytes(a) as usize;
        p = 10;
    }
    let mut mask = [0u8; 4];
    if masked {
        if buf.len() < p + 4 {
            return None;
        }
        mask.copy_from_slice(&buf[p..p + 4]);
        p += 4;
    }
    if buf.len() < p + len {
        return None;
    }
    let mut data = buf[p..p + len].to_vec();
    buf.drain(..p + len);
    if masked {
        for (i, b) in data.iter_mut().enumerate() {
            *b ^= mask[i % 4];
        }
    }
    Some(Frame {
        fin,
        op,
        masked,
        data,
    })
}
