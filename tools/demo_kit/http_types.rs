//! Stand-in for the git dependency of the same name, which is not available offline.
use candid::{CandidType, Deserialize};
use serde_bytes::ByteBuf;

#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpRequest { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: ByteBuf }
impl HttpRequest {
    pub fn path(&self) -> &str { match self.url.find('?') { None => &self.url[..], Some(i) => &self.url[..i] } }
}
#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpResponse { pub status_code: u16, pub headers: Vec<(String, String)>, pub body: ByteBuf }
pub struct HttpResponseBuilder(HttpResponse);
impl HttpResponseBuilder {
    fn new(status_code: u16) -> Self { Self(HttpResponse { status_code, headers: vec![], body: ByteBuf::new() }) }
    pub fn ok() -> Self { Self::new(200) }
    pub fn bad_request() -> Self { Self::new(400) }
    pub fn not_found() -> Self { Self::new(404) }
    pub fn server_error(reason: impl ToString) -> Self { Self::new(500).with_body_and_content_length(reason.to_string()) }
    pub fn header(mut self, name: impl ToString, value: impl ToString) -> Self { self.0.headers.push((name.to_string(), value.to_string())); self }
    pub fn body(mut self, bytes: impl Into<Vec<u8>>) -> Self { self.0.body = ByteBuf::from(bytes.into()); self }
    pub fn with_body_and_content_length(self, bytes: impl Into<Vec<u8>>) -> Self { let b: Vec<u8> = bytes.into(); let n = b.len(); self.body(b).header("Content-Length", n) }
    pub fn build(self) -> HttpResponse { self.0 }
}
