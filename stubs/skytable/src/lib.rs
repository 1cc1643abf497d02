//! A stand-in for the client library (which can not be fetched offline): the same interface, an own implementation of the protocol.
pub mod error {
    #[derive(Debug)]
    pub enum Error {
        Io(std::io::Error),
        Protocol(String),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Self::Io(e) => write!(f, "{e}"),
                Self::Protocol(e) => write!(f, "{e}"),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Self::Io(e)
        }
    }
    pub type ClientResult<T> = Result<T, Error>;
}

pub mod query {
    #[derive(Debug, PartialEq, Clone)]
    pub struct Query {
        pub(crate) q: String,
        pub(crate) params: Vec<u8>,
        pub(crate) cnt: usize,
    }
    impl Query {
        pub fn new(q: &str) -> Self {
            Self { q: q.to_owned(), params: vec![], cnt: 0 }
        }
        pub fn query_str(&self) -> &str {
            &self.q
        }
        pub fn param_cnt(&self) -> usize {
            self.cnt
        }
        pub fn push_param(&mut self, p: impl SQParam) -> &mut Self {
            self.cnt += p.append_param(&mut self.params);
            self
        }
    }
    impl From<String> for Query {
        fn from(q: String) -> Self {
            Self::new(&q)
        }
    }
    pub trait SQParam {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize;
    }
    impl<'a, T: SQParam + ?Sized> SQParam for &'a T {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            T::append_param(self, buf)
        }
    }
    pub struct Null;
    impl SQParam for Null {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            buf.push(0);
            1
        }
    }
    impl<T: SQParam> SQParam for Option<T> {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            match self {
                Some(t) => t.append_param(buf),
                None => Null.append_param(buf),
            }
        }
    }
    impl SQParam for bool {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            buf.extend([1, *self as u8]);
            1
        }
    }
    macro_rules! num {
        ($($t:ty => $tag:literal),*) => {$(
            impl SQParam for $t {
                fn append_param(&self, buf: &mut Vec<u8>) -> usize {
                    buf.push($tag);
                    buf.extend(self.to_string().as_bytes());
                    buf.push(b'\n');
                    1
                }
            }
        )*}
    }
    num!(u8 => 2, u16 => 2, u32 => 2, u64 => 2, usize => 2, i8 => 3, i16 => 3, i32 => 3, i64 => 3, isize => 3, f32 => 4, f64 => 4);
    fn block(tag: u8, b: &[u8], buf: &mut Vec<u8>) -> usize {
        buf.push(tag);
        buf.extend(b.len().to_string().as_bytes());
        buf.push(b'\n');
        buf.extend(b);
        1
    }
    impl SQParam for [u8] {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            block(5, self, buf)
        }
    }
    impl SQParam for Vec<u8> {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            block(5, self, buf)
        }
    }
    impl SQParam for str {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            block(6, self.as_bytes(), buf)
        }
    }
    impl SQParam for String {
        fn append_param(&self, buf: &mut Vec<u8>) -> usize {
            block(6, self.as_bytes(), buf)
        }
    }
}
pub use query::Query;

#[macro_export]
macro_rules! query {
    ($q:expr $(,)?) => { $crate::Query::from(::std::string::String::from($q)) };
    ($q:expr, $($p:expr),+ $(,)?) => {{
        let mut q = $crate::Query::from(::std::string::String::from($q));
        $(q.push_param($p);)*
        q
    }};
}

pub mod response {
    #[derive(Debug, PartialEq, Clone)]
    pub enum Value {
        Null,
        Bool(bool),
        UInt8(u8),
        UInt16(u16),
        UInt32(u32),
        UInt64(u64),
        SInt8(i8),
        SInt16(i16),
        SInt32(i32),
        SInt64(i64),
        Float32(f32),
        Float64(f64),
        Binary(Vec<u8>),
        String(String),
        List(Vec<Value>),
    }
    #[derive(Debug, PartialEq, Clone)]
    pub struct Row(pub(crate) Vec<Value>);
    impl Row {
        pub fn into_values(self) -> Vec<Value> {
            self.0
        }
        pub fn values(&self) -> &[Value] {
            &self.0
        }
    }
    #[derive(Debug, PartialEq, Clone)]
    pub enum Response {
        Empty,
        Error(u16),
        Value(Value),
        Row(Row),
        Rows(Vec<Row>),
    }
}

use {
    error::{ClientResult, Error},
    response::{Response, Row, Value},
    std::{
        io::{BufRead, BufReader, Read, Write},
        net::TcpStream,
    },
};

pub struct Config {
    host: String,
    port: u16,
    user: String,
    pass: String,
}

impl Config {
    pub fn new(host: &str, port: u16, user: &str, pass: &str) -> Self {
        Self { host: host.into(), port, user: user.into(), pass: pass.into() }
    }
    pub fn connect(&self) -> ClientResult<Connection> {
        let mut s = TcpStream::connect((self.host.as_str(), self.port))?;
        s.set_nodelay(true)?;
        s.write_all(
            format!("H\0\0\0\0\0{}\n{}\n{}{}", self.user.len(), self.pass.len(), self.user, self.pass).as_bytes(),
        )?;
        let mut c = Connection(BufReader::new(s));
        let mut h = [0; 4];
        c.0.read_exact(&mut h)?;
        if h == *b"H\0\0\0" {
            Ok(c)
        } else {
            Err(Error::Protocol(format!("handshake refused with {}", h[3])))
        }
    }
    pub fn connect_tls(&self, _cert: &str) -> ClientResult<ConnectionTls> {
        Err(Error::Protocol("no TLS in this build".into()))
    }
}

pub struct Connection(BufReader<TcpStream>);
pub struct ConnectionTls(Connection);

impl ConnectionTls {
    pub fn query(&mut self, q: &Query) -> ClientResult<Response> {
        self.0.query(q)
    }
}

impl Connection {
    pub fn query(&mut self, q: &Query) -> ClientResult<Response> {
        let mut body = q.q.len().to_string().into_bytes();
        body.push(b'\n');
        body.extend(q.q.as_bytes());
        body.extend(&q.params);
        let mut pkt = format!("S{}\n", body.len()).into_bytes();
        pkt.extend(body);
        self.0.get_mut().write_all(&pkt)?;
        let t = self.byte()?;
        Ok(match t {
            0x10 => {
                let mut b = [0; 2];
                self.0.read_exact(&mut b)?;
                Response::Error(u16::from_le_bytes(b))
            }
            0x11 => {
                let n = self.num()?;
                Response::Row(self.row(n)?)
            }
            0x12 => Response::Empty,
            0x13 => {
                let (n, c): (usize, usize) = (self.num()?, self.num()?);
                let mut rows = vec![];
                for _ in 0..n {
                    rows.push(self.row(c)?);
                }
                Response::Rows(rows)
            }
            t => Response::Value(self.cell(t)?),
        })
    }
    fn row(&mut self, n: usize) -> ClientResult<Row> {
        let mut r = vec![];
        for _ in 0..n {
            let t = self.byte()?;
            r.push(self.cell(t)?);
        }
        Ok(Row(r))
    }
    fn byte(&mut self) -> ClientResult<u8> {
        let mut b = [0];
        self.0.read_exact(&mut b)?;
        Ok(b[0])
    }
    fn num<T: std::str::FromStr>(&mut self) -> ClientResult<T> {
        let mut l = String::new();
        self.0.read_line(&mut l)?;
        l.trim_end_matches('\n').parse().map_err(|_| Error::Protocol(format!("bad number {l:?}")))
    }
    fn block(&mut self) -> ClientResult<Vec<u8>> {
        let mut b = vec![0; self.num()?];
        self.0.read_exact(&mut b)?;
        Ok(b)
    }
    fn cell(&mut self, t: u8) -> ClientResult<Value> {
        Ok(match t {
            0 => Value::Null,
            1 => Value::Bool(self.byte()? == 1),
            2 => Value::UInt8(self.num()?),
            3 => Value::UInt16(self.num()?),
            4 => Value::UInt32(self.num()?),
            5 => Value::UInt64(self.num()?),
            6 => Value::SInt8(self.num()?),
            7 => Value::SInt16(self.num()?),
            8 => Value::SInt32(self.num()?),
            9 => Value::SInt64(self.num()?),
            10 => Value::Float32(self.num()?),
            11 => Value::Float64(self.num()?),
            12 => Value::Binary(self.block()?),
            13 => Value::String(String::from_utf8(self.block()?).map_err(|_| Error::Protocol("bad string".into()))?),
            14 => {
                let n: usize = self.num()?;
                let mut l = vec![];
                for _ in 0..n {
                    let t = self.byte()?;
                    l.push(self.cell(t)?);
                }
                Value::List(l)
            }
            t => return Err(Error::Protocol(format!("unknown tag {t}"))),
        })
    }
}
