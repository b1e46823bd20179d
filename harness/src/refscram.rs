//! Reference SCRAM computations, written from RFC 5802 and independent of rsasl. They are used to
//! build the messages of a peer (honest or not) that knows a given set of secrets.
use hmac::{Mac, SimpleHmac};
use sha2::Digest;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Sha1,
    Sha256,
    Sha512,
}

impl Alg {
    pub fn of_mech(m: &str) -> Alg {
        if m.contains("512") {
            Alg::Sha512
        } else if m.contains("256") {
            Alg::Sha256
        } else {
            Alg::Sha1
        }
    }
    pub fn hash(self, d: &[u8]) -> Vec<u8> {
        match self {
            Alg::Sha1 => sha1::Sha1::digest(d).to_vec(),
            Alg::Sha256 => sha2::Sha256::digest(d).to_vec(),
            Alg::Sha512 => sha2::Sha512::digest(d).to_vec(),
        }
    }
    pub fn hmac(self, k: &[u8], d: &[u8]) -> Vec<u8> {
        macro_rules! h {
            ($t:ty) => {{
                let mut m = <SimpleHmac<$t>>::new_from_slice(k).unwrap();
                m.update(d);
                m.finalize().into_bytes().to_vec()
            }};
        }
        match self {
            Alg::Sha1 => h!(sha1::Sha1),
            Alg::Sha256 => h!(sha2::Sha256),
            Alg::Sha512 => h!(sha2::Sha512),
        }
    }
    pub fn hi(self, pw: &[u8], salt: &[u8], i: u32) -> Vec<u8> {
        macro_rules! p {
            ($t:ty, $n:expr) => {{
                let mut o = vec![0u8; $n];
                let _ = pbkdf2::pbkdf2::<SimpleHmac<$t>>(pw, salt, i, &mut o);
                o
            }};
        }
        match self {
            Alg::Sha1 => p!(sha1::Sha1, 20),
            Alg::Sha256 => p!(sha2::Sha256, 32),
            Alg::Sha512 => p!(sha2::Sha512, 64),
        }
    }
}

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

pub fn attr(msg: &[u8], k: u8) -> Option<Vec<u8>> {
    msg.split(|b| *b == b',')
        .find(|f| f.len() >= 2 && f[0] == k && f[1] == b'=')
        .map(|f| f[2..].to_vec())
}

/// client-first-message-bare
pub fn bare(cf: &[u8]) -> &[u8] {
    let mut n = 0;
    for (i, b) in cf.iter().enumerate() {
        if *b == b',' {
            n += 1;
            if n == 2 {
                return &cf[i + 1..];
            }
        }
    }
    &[]
}
pub fn gs2(cf: &[u8]) -> &[u8] {
    let b = bare(cf).len();
    &cf[..cf.len() - b]
}
