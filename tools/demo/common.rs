#![allow(dead_code, unused_imports)]
pub use rsasl::callback::{Context, Request, SessionCallback, SessionData};
pub use rsasl::config::SASLConfig;
pub use rsasl::mechanisms as m;
pub use rsasl::mechname::Mechname;
pub use rsasl::prelude::*;
pub use rsasl::property::*;
pub use rsasl::registry::{Mechanism, Registry};
pub use rsasl::validate::{NoValidation, Validate, Validation, ValidationError};
pub use std::sync::{Arc, Mutex};

pub struct Who;
impl Validation for Who {
    type Value = String;
}

type P = Box<dyn Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync>;
type V = Box<dyn Fn(&SessionData, &Context, &mut Validate) -> Result<(), ValidationError> + Send + Sync>;
pub struct Cb(pub P, pub V, pub bool);
impl SessionCallback for Cb {
    fn callback(&self, s: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        (self.0)(s, c, r)
    }
    fn validate(&self, s: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        (self.1)(s, c, v)
    }
    fn enable_channel_binding(&self) -> bool {
        self.2
    }
}

pub fn full(
    regs: &[Mechanism],
    cb: bool,
    p: impl Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync + 'static,
    v: impl Fn(&SessionData, &Context, &mut Validate) -> Result<(), ValidationError> + Send + Sync + 'static,
) -> Arc<SASLConfig> {
    SASLConfig::builder()
        .with_registry(Registry::with_mechanisms(Vec::leak(regs.to_vec())))
        .with_callback(Cb(Box::new(p), Box::new(v), cb))
        .unwrap()
}
/// A client configuration
pub fn ccfg(regs: &[Mechanism], p: impl Fn(&Context, &mut Request) -> Result<(), SessionError> + Send + Sync + 'static) -> Arc<SASLConfig> {
    full(regs, false, move |_, c, r| p(c, r), |_, _, _| Ok(()))
}
/// A client with a name and a password
pub fn login(regs: &[Mechanism], user: &'static str, pw: &'static str) -> Arc<SASLConfig> {
    ccfg(regs, move |_, r| {
        r.satisfy::<AuthId>(user)?.satisfy::<Password>(pw.as_bytes())?;
        Ok(())
    })
}
/// A server configuration whose outcome names the user (or authorization identity, or trace)
pub fn scfg(regs: &[Mechanism], p: impl Fn(&Context, &mut Request) -> Result<(), SessionError> + Send + Sync + 'static) -> Arc<SASLConfig> {
    full(regs, false, move |_, c, r| p(c, r), |_, c, v| {
        let n = c.get_ref::<AuthId>().or_else(|| c.get_ref::<AuthzId>()).or_else(|| c.get_ref::<m::anonymous::AnonymousToken>()).unwrap_or("?").to_string();
        v.finalize::<Who>(n);
        Ok(())
    })
}
pub fn client(c: &Arc<SASLConfig>, offers: &[&str]) -> Session {
    let o: Vec<&Mechname> = offers.iter().map(|n| Mechname::parse(n.as_bytes()).unwrap()).collect();
    SASLClient::new(c.clone()).start_suggested(&o).unwrap()
}
pub fn server(c: &Arc<SASLConfig>, sel: &str) -> Session<Who> {
    SASLServer::<Who>::new(c.clone()).start_suggested(Mechname::parse(sel.as_bytes()).unwrap()).unwrap()
}
/// One step: what it reports and writes
pub fn step<V: Validation>(s: &mut Session<V>, i: Option<&[u8]>) -> Result<(State, Vec<u8>), SessionError> {
    let mut o = Vec::new();
    s.step(i, &mut o).map(|x| (x, o))
}
pub fn step64<V: Validation>(s: &mut Session<V>, i: Option<&[u8]>) -> Result<(State, Vec<u8>), SessionError> {
    let mut o = Vec::new();
    s.step64(i, &mut o).map(|x| (x, o))
}
/// A client that speaks first, and a server: did both finish?
pub fn talk(c: &mut Session, s: &mut Session<Who>) -> bool {
    let (mut cf, mut sf) = (false, false);
    let mut msg: Option<Vec<u8>> = None;
    for _ in 0..6 {
        if !cf {
            match step(c, msg.as_deref()) {
                Ok((st, o)) => {
                    cf = st.is_finished();
                    msg = if st.has_sent_message() { Some(o) } else { None };
                }
                Err(_) => return false,
            }
        }
        if cf && sf {
            return true;
        }
        match step(s, msg.as_deref()) {
            Ok((st, o)) => {
                sf = st.is_finished();
                msg = if st.has_sent_message() { Some(o) } else { None };
            }
            Err(_) => return false,
        }
        if cf && sf {
            return true;
        }
    }
    false
}
pub fn attr(msg: &[u8], k: &str) -> String {
    String::from_utf8_lossy(msg).split(',').find_map(|f| f.strip_prefix(k).map(String::from)).unwrap_or_default()
}

/// SCRAM-SHA-256 computed here, independently
pub mod s {
    use super::*;
    use base64::{engine::general_purpose::STANDARD, Engine};
    use hmac::{Hmac, Mac};
    use sha2::{Digest, Sha256};
    pub fn b64(x: &[u8]) -> String {
        STANDARD.encode(x)
    }
    pub fn un64(x: &str) -> Vec<u8> {
        STANDARD.decode(x).unwrap()
    }
    pub fn hm(k: &[u8], d: &[u8]) -> Vec<u8> {
        let mut h = Hmac::<Sha256>::new_from_slice(k).unwrap();
        h.update(d);
        h.finalize().into_bytes().to_vec()
    }
    pub fn h(d: &[u8]) -> Vec<u8> {
        Sha256::digest(d).to_vec()
    }
    pub fn salted(pw: &str, salt: &[u8], i: u32) -> Vec<u8> {
        let mut o = vec![0u8; 32];
        pbkdf2::pbkdf2::<Hmac<Sha256>>(pw.as_bytes(), salt, i, &mut o).unwrap();
        o
    }
    /// client key, server key
    pub fn keys(pw: &str, salt: &[u8], i: u32) -> (Vec<u8>, Vec<u8>) {
        let s = salted(pw, salt, i);
        (hm(&s, b"Client Key"), hm(&s, b"Server Key"))
    }
    pub fn proof(ck: &[u8], auth: &str) -> String {
        let sig = hm(&h(ck), auth.as_bytes());
        b64(&ck.iter().zip(sig).map(|(a, b)| a ^ b).collect::<Vec<u8>>())
    }
    pub fn verifier(sk: &[u8], auth: &str) -> String {
        b64(&hm(sk, auth.as_bytes()))
    }
    pub const SALT: &[u8] = b"salt of a user";
    /// A server that knows `user` with the password "secret", salt SALT and 64 iterations
    pub fn users(user: &'static str, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        if c.get_ref::<AuthId>() == Some(user) {
            let (ck, sk) = keys("secret", SALT, 64);
            r.satisfy::<m::scram::properties::ScramStoredPassword<'static>>(&m::scram::properties::ScramStoredPassword::new(64, SALT, &h(&ck), &sk))?;
        }
        Ok(())
    }
    pub fn scram_server(regs: &[Mechanism], user: &'static str) -> Arc<SASLConfig> {
        scfg(regs, move |c, r| users(user, c, r))
    }
    pub fn t(x: &[u8]) -> String {
        String::from_utf8(x.to_vec()).unwrap()
    }
}
