//! Stand-in for `reqwest`: every request is answered by the model checker (see [`stub`]).
//! Only the part of the API that a small synchronous client would plausibly use is offered.

use std::fmt;

/// What the explorer wants the "network" to do.
pub mod stub {
    use std::sync::Mutex;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub enum Body {
        /// The body arrives whole
        Whole(Vec<u8>),
        /// The connection drops while the body is read
        Broken,
    }

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub enum Answer {
        /// The request itself fails (no network, DNS, TLS, ...)
        NoConnection,
        Response { status: u16, body: Body },
    }

    #[derive(Debug, Default)]
    pub struct State {
        /// The answers to give, in order; a request beyond the end gets `NoConnection`
        pub script: Vec<Answer>,
        /// All the URLs requested so far
        pub requests: Vec<String>,
    }

    static STATE: Mutex<Option<State>> = Mutex::new(None);

    pub fn script(answers: Vec<Answer>) {
        *STATE.lock().unwrap_or_else(|e| e.into_inner()) =
            Some(State { script: answers, requests: Vec::new() });
    }

    pub fn requests() -> Vec<String> {
        STATE
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .as_ref()
            .map_or(Vec::new(), |s| s.requests.clone())
    }

    pub(crate) fn answer(url: &str) -> Answer {
        let mut s = STATE.lock().unwrap_or_else(|e| e.into_inner());
        let s = s.get_or_insert_with(State::default);
        let i = s.requests.len();
        s.requests.push(url.to_owned());
        s.script.get(i).cloned().unwrap_or(Answer::NoConnection)
    }
}

#[derive(Debug)]
pub struct Error(&'static str);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);

impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}

pub mod blocking {
    use super::stub::{answer, Answer, Body};
    use super::{Error, Result, StatusCode};
    use std::time::Duration;

    pub fn get(url: impl AsRef<str>) -> Result<Response> {
        match answer(url.as_ref()) {
            Answer::NoConnection => Err(Error("stub: no connection")),
            Answer::Response { status, body } => Ok(Response { status, body }),
        }
    }

    #[derive(Debug)]
    pub struct Response {
        status: u16,
        body: Body,
    }

    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.status)
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status().is_client_error() || self.status().is_server_error() {
                Err(Error("stub: error status"))
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.status().is_client_error() || self.status().is_server_error() {
                Err(Error("stub: error status"))
            } else {
                Ok(self)
            }
        }
        pub fn text(self) -> Result<String> {
            match self.body {
                Body::Whole(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
                Body::Broken => Err(Error("stub: connection dropped")),
            }
        }
        pub fn bytes(self) -> Result<Vec<u8>> {
            match self.body {
                Body::Whole(b) => Ok(b),
                Body::Broken => Err(Error("stub: connection dropped")),
            }
        }
        pub fn content_length(&self) -> Option<u64> {
            match &self.body {
                Body::Whole(b) => Some(b.len() as u64),
                Body::Broken => None,
            }
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct Client;
    #[derive(Debug, Clone, Default)]
    pub struct ClientBuilder;
    #[derive(Debug, Clone)]
    pub struct RequestBuilder(String);

    impl Client {
        pub fn new() -> Self {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder(url.as_ref().to_owned())
        }
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            ClientBuilder
        }
        pub fn timeout(self, _: impl Into<Option<Duration>>) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    impl RequestBuilder {
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn header(self, _: &str, _: &str) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            get(self.0)
        }
    }
}
