//! Executes scenarios against the real sessions and records what happens.
use crate::cb::*;
use crate::custom::custom;
use crate::props::enc;
use crate::refscram::*;
use base64::{engine::general_purpose::STANDARD, Engine};
use rsasl::config::SASLConfig;
use rsasl::mechanisms as m;
use rsasl::mechname::{MechanismNameError, Mechname};
use rsasl::validate::NoValidation;
use rsasl::prelude::*;
use rsasl::registry::Registry;
use serde_json::{json, Map, Value};
use std::io::{self, IoSlice, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

pub fn mech(name: &str) -> Mechanism {
    match name {
        "PLAIN" => m::plain::PLAIN,
        "LOGIN" => m::login::LOGIN,
        "ANONYMOUS" => m::anonymous::ANONYMOUS,
        "EXTERNAL" => m::external::EXTERNAL,
        "XOAUTH2" => m::xoauth2::XOAUTH2,
        "OAUTHBEARER" => m::oauthbearer::OAUTHBEARER,
        "SCRAM-SHA-1" => m::scram::SCRAM_SHA1,
        "SCRAM-SHA-1-PLUS" => m::scram::SCRAM_SHA1_PLUS,
        "SCRAM-SHA-256" => m::scram::SCRAM_SHA256,
        "SCRAM-SHA-256-PLUS" => m::scram::SCRAM_SHA256_PLUS,
        "SCRAM-SHA-512" => m::scram::SCRAM_SHA512,
        "SCRAM-SHA-512-PLUS" => m::scram::SCRAM_SHA512_PLUS,
        "GSSAPI" => m::gssapi::GSSAPI,
        n => custom(n).unwrap_or_else(|| panic!("scenario: unknown mechanism {n}")),
    }
}

/// Change one character of a nonce, from position p on, the way `how` says
fn alter(n: &mut [u8], p: usize, how: &str) {
    let len = n.len();
    for k in 0..len {
        let (i, j) = ((p + k) % len, (p + k + 1) % len);
        match how {
            "case" if n[i].is_ascii_alphabetic() => n[i] ^= 32,
            "exch" if n[i] != n[j] => n.swap(i, j),
            "bit" if (33..=126).contains(&(n[i] ^ 1)) && n[i] ^ 1 != b',' => n[i] ^= 1,
            _ => continue,
        }
        return;
    }
    n[p] = if n[p] == b'A' { b'B' } else { b'A' };
}

/// What an error says of itself; it can always be shown
fn tell(e: &SessionError) -> (Vec<&'static str>, String) {
    let mut text = format!("{e} {e:?} {e:#?}");
    let mut source = std::error::Error::source(e);
    while let Some(s) = source {
        text += &format!(" {s} {s:?} {s:#?}");
        source = s.source();
    }
    let unhandled = matches!(e, SessionError::CallbackError(c) if c.is_no_callback());
    let is = [(e.is_mechanism_error(), "mech"), (e.is_missing_prop(), "missing"), (unhandled, "nocb")].iter().filter(|x| x.0).map(|x| x.1).collect();
    (is, text)
}

fn config(c: &Value) -> Result<Arc<SASLConfig>, SASLError> {
    if c["regk"] == "cred" {
        let cred = &c["cred"];
        let s = |i: usize| string(opt(&cred[i]).expect("scenario: credentials"));
        return SASLConfig::with_credentials(opt(&cred[0]).map(string), s(1), s(2));
    }
    let callback = Cb {
        script: c["script"].as_array().cloned().unwrap_or_default(),
        val: c["val"].as_array().cloned().unwrap_or_default(),
        cb: c["cb"] == true,
        prefer: c["prefer"].clone(),
    };
    let b = SASLConfig::builder();
    // what is in the default configuration is a matter of how the library was built
    let kind = if cfg!(feature = "registry_static") { "static" } else { "default" };
    if c["regk"] == "default" || c["regk"] == "static" {
        assert!(c["regk"] == kind, "scenario: for another build");
        return if callback.cb { b.with_defaults() } else { b.with_default_mechanisms() }.with_callback(callback);
    }
    let reg: Vec<Mechanism> = c["regs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| mech(n.as_str().unwrap()))
        .collect();
    // registries need 'static; a scenario run is short-lived
    b.with_registry(Registry::with_mechanisms(Vec::leak(reg)))
        .with_callback(callback)
}

/// A writer that accepts the message the way its script says
pub struct W {
    pub out: Vec<u8>,
    script: Vec<Value>,
    at: usize,
    pub refused: bool,
    /// the error it refused with
    pub kind: &'static str,
    pub calls: usize,
}
impl W {
    pub fn new(script: &Value) -> Self {
        W {
            out: vec![],
            script: script.as_array().cloned().unwrap_or_default(),
            at: 0,
            refused: false,
            kind: "",
            calls: 0,
        }
    }
    fn accept(&mut self, bufs: &[&[u8]]) -> io::Result<usize> {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        self.calls += 1;
        let item = self.script.get(self.at).cloned().unwrap_or(Value::Null);
        self.at += 1;
        let n = match item {
            Value::Null => total,
            Value::Number(n) => (n.as_u64().unwrap() as usize).min(total),
            Value::String(s) => match s.as_str() {
                "int" => return Err(io::ErrorKind::Interrupted.into()),
                "zero" => {
                    self.refused |= total > 0;
                    self.kind = "WriteZero";
                    // a full writer stays full
                    self.at -= 1;
                    0
                }
                "err" => {
                    self.refused = true;
                    self.kind = "BrokenPipe";
                    self.at -= 1;
                    return Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone"));
                }
                "full" => {
                    self.refused = true;
                    self.kind = "Other";
                    self.at -= 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "full"));
                }
                s => panic!("scenario: unknown writer item {s}"),
            },
            _ => panic!("scenario: bad writer item"),
        };
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            self.out.extend(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
}
impl Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.accept(&[buf])
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let b: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
        self.accept(&b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Sess {
    N(Session<NoValidation, ProvCb>),
    A(Session<ValA, ProvCb>),
    /// without channel bindings
    NN(Session<NoValidation>),
    AN(Session<ValA>),
}
macro_rules! on {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sess::N($x) => $e,
            Sess::A($x) => $e,
            Sess::NN($x) => $e,
            Sess::AN($x) => $e,
        }
    };
}

struct S {
    sess: Option<Sess>,
    /// may step be called?
    live: bool,
    poisoned: bool,
    client: bool,
    mech: String,
    /// decoded messages given to and produced by this session
    ins: Vec<Vec<u8>>,
    outs: Vec<Vec<u8>>,
    /// protected messages produced
    encs: Vec<Vec<u8>>,
    /// index of the first input given / output produced for the SCRAM helpers
    last: Option<String>,
}

struct Run<'a> {
    s: Vec<S>,
    idx: Vec<usize>,
    ev: Vec<Value>,
    spec: &'a Value,
}

fn scram_attr_flip(msg: &[u8], k: u8, at: i64, x: u8) -> Vec<u8> {
    edit_attr(msg, k, |v| {
        let mut d = STANDARD.decode(&v).unwrap_or(v);
        flip(&mut d, at, x);
        STANDARD.encode(d).into_bytes()
    })
}
fn flip(d: &mut [u8], at: i64, x: u8) {
    if !d.is_empty() {
        let i = at.rem_euclid(d.len() as i64) as usize;
        d[i] ^= x;
    }
}
fn edit_attr(msg: &[u8], k: u8, f: impl Fn(Vec<u8>) -> Vec<u8>) -> Vec<u8> {
    let parts: Vec<Vec<u8>> = msg
        .split(|b| *b == b',')
        .map(|p| {
            if p.len() >= 2 && p[0] == k && p[1] == b'=' {
                let mut o = p[..2].to_vec();
                o.extend(f(p[2..].to_vec()));
                o
            } else {
                p.to_vec()
            }
        })
        .collect();
    parts.join(&b","[..])
}

/// Apply the mutations of a scenario to a message
pub fn mutate(mut b: Vec<u8>, muts: &Value) -> Vec<u8> {
    for mu in muts.as_array().map(|a| &a[..]).unwrap_or_default() {
        let at = mu["at"].as_i64().unwrap_or(0);
        let key = mu["k"].as_str().map(|s| s.as_bytes()[0]).unwrap_or(0);
        let pos = |len: usize| {
            if len == 0 {
                0
            } else {
                at.rem_euclid(len as i64) as usize
            }
        };
        match mu["m"].as_str().unwrap() {
            "flip" => flip(&mut b, at, mu["x"].as_u64().unwrap() as u8),
            "set" => {
                if !b.is_empty() {
                    let p = pos(b.len());
                    b[p] = mu["x"].as_u64().unwrap() as u8;
                }
            }
            "trunc" => {
                let p = pos(b.len().max(1));
                b.truncate(p)
            }
            "app" => b.extend(bytes(&mu["b"])),
            "pre" => b = [bytes(&mu["b"]), b].concat(),
            "del" => {
                if !b.is_empty() {
                    let p = pos(b.len());
                    b.remove(p);
                }
            }
            "ins" => {
                let p = pos(b.len() + 1);
                let tail = b.split_off(p);
                b.extend(bytes(&mu["b"]));
                b.extend(tail);
            }
            "rep" => b = bytes(&mu["b"]),
            "attr" => b = edit_attr(&b, key, |_| bytes(&mu["b"])),
            // another letter at this place
            "attrsub" => {
                b = edit_attr(&b, key, |mut v| {
                    if !v.is_empty() {
                        let p = at.rem_euclid(v.len() as i64) as usize;
                        alter(&mut v, p, mu["how"].as_str().unwrap_or("a"));
                    }
                    v
                })
            }
            // cut off / append bytes of the decoded value
            "attrcut64" => {
                b = edit_attr(&b, key, |v| {
                    let mut d = STANDARD.decode(&v).unwrap_or(v);
                    if !d.is_empty() {
                        let p = at.rem_euclid(d.len() as i64) as usize;
                        d.truncate(p);
                    }
                    STANDARD.encode(d).into_bytes()
                })
            }
            "attrapp64" => {
                b = edit_attr(&b, key, |v| {
                    let mut d = STANDARD.decode(&v).unwrap_or(v);
                    d.extend(bytes(&mu["b"]));
                    STANDARD.encode(d).into_bytes()
                })
            }
            // other GS2 header
            "gs2" => b = [bytes(&mu["b"]), bare(&b).to_vec()].concat(),
            // before the proof
            "insp" => {
                let p = b.windows(3).rposition(|w| w == b",p=").unwrap_or(b.len());
                let tail = b.split_off(p);
                b.extend(bytes(&mu["b"]));
                b.extend(tail);
            }
            "attrapp" => b = edit_attr(&b, key, |v| [v, bytes(&mu["b"])].concat()),
            "attrtrunc" => {
                b = edit_attr(&b, key, |v| {
                    let p = if v.is_empty() { 0 } else { at.rem_euclid(v.len() as i64) as usize };
                    v[..p].to_vec()
                })
            }
            "attrflip" => b = scram_attr_flip(&b, key, at, mu["x"].as_u64().unwrap() as u8),
            "dropattr" => {
                let parts: Vec<&[u8]> = b
                    .split(|c| *c == b',')
                    .filter(|p| !(p.len() >= 2 && p[0] == key && p[1] == b'='))
                    .collect();
                b = parts.join(&b","[..])
            }
            "dupattr" => {
                if let Some(v) = attr(&b, key) {
                    b.push(b',');
                    b.extend([key, b'=']);
                    b.extend(v);
                }
            }
            "swapattr" => {
                // exchange the first two comma-separated fields
                let mut parts: Vec<&[u8]> = b.split(|c| *c == b',').collect();
                if parts.len() >= 2 {
                    parts.swap(0, 1);
                }
                b = parts.join(&b","[..])
            }
            x => panic!("scenario: unknown mutation {x}"),
        }
    }
    b
}

impl<'a> Run<'a> {
    fn get(&self, j: usize) -> &S {
        let i = self.idx.iter().position(|x| *x == j).expect("scenario: session not in group");
        &self.s[i]
    }
    fn get_mut(&mut self, j: usize) -> &mut S {
        let i = self.idx.iter().position(|x| *x == j).expect("scenario: session not in group");
        &mut self.s[i]
    }

    /// A message of a SCRAM peer of session `of`
    fn scram(&self, v: &Value) -> Option<Vec<u8>> {
        let of = v["of"].as_u64().unwrap() as usize;
        let s = self.get(of);
        let alg = Alg::of_mech(v["alg"].as_str().unwrap_or(&s.mech));
        let ov = |k: &str| v.get(k).filter(|x| !x.is_null()).map(bytes);
        let kind = v["scram"].as_str().unwrap();
        if kind == "sfirst" {
            let cf = s.outs.first()?;
            let mut nonce = ov("nonce").unwrap_or(attr(bare(cf), b'r')?);
            nonce.extend(ov("ext").unwrap_or_default());
            let mut o = b"r=".to_vec();
            o.extend(nonce);
            o.extend(b",s=");
            o.extend(ov("salt64").unwrap_or_else(|| STANDARD.encode(ov("salt").unwrap()).into_bytes()));
            o.extend(b",i=");
            o.extend(ov("iter").unwrap());
            return Some(o);
        }
        let (cf, sf) = if s.client {
            (s.outs.first()?.clone(), s.ins.first()?.clone())
        } else {
            (s.ins.first()?.clone(), s.outs.first()?.clone())
        };
        // what the computing peer believes it sent and received
        let cbare = ov("bare").unwrap_or_else(|| bare(&cf).to_vec());
        let cbare = mutate(cbare, &v["baremut"]);
        let sfirst = mutate(ov("sfirst").unwrap_or(sf.clone()), &v["sfmut"]);
        let cbin = match ov("cbin") {
            Some(c) => c,
            None => [gs2(&cf).to_vec(), ov("cbdata").unwrap_or_default()].concat(),
        };
        // bytes, or how to change the nonce of the exchange
        let mut nonce = attr(&sf, b'r')?;
        match &v["nonce"] {
            Value::Array(_) => nonce = bytes(&v["nonce"]),
            Value::Object(o) => {
                let at = |k: &str, n: usize| o[k].as_i64().unwrap().rem_euclid(n.max(1) as i64) as usize;
                if o.contains_key("sub") {
                    let p = at("sub", nonce.len());
                    alter(&mut nonce, p, o.get("how").and_then(|h| h.as_str()).unwrap_or("a"));
                } else if o.contains_key("cut") {
                    nonce.truncate(at("cut", nonce.len()));
                } else if o.contains_key("app") {
                    nonce.extend(bytes(&o["app"]));
                } else {
                    nonce = attr(bare(&cf), b'r')?;
                }
            }
            _ => {}
        }
        let salt = ov("salt").or_else(|| STANDARD.decode(attr(&sf, b's')?).ok())?;
        let iter = match v["iter"].as_u64() {
            Some(i) => i as u32,
            None => String::from_utf8(attr(&sf, b'i')?).ok()?.parse().ok()?,
        };
        let cut = |m: &[u8]| {
            let n = m.windows(3).rposition(|w| w == b",p=").unwrap_or(m.len());
            m[..n].to_vec()
        };
        let woproof = if s.client && kind == "sfinal" {
            mutate(cut(s.outs.get(1)?), &v["womut"])
        } else {
            let mut o = b"c=".to_vec();
            o.extend(ov("c64").unwrap_or_else(|| STANDARD.encode(&cbin).into_bytes()));
            o.extend(b",r=");
            o.extend(&nonce);
            o.extend(ov("ext").unwrap_or_default());
            o
        };
        let authmsg = [&cbare[..], b",", &sfirst[..], b",", &woproof[..]].concat();
        let (ck, sk) = match (ov("ck"), ov("sk")) {
            (Some(c), Some(k)) => (c, k),
            (c, k) => {
                let salted = alg.hi(&ov("pw").unwrap(), &salt, iter);
                (
                    c.unwrap_or_else(|| alg.hmac(&salted, b"Client Key")),
                    k.unwrap_or_else(|| alg.hmac(&salted, b"Server Key")),
                )
            }
        };
        match kind {
            "cfinal" => {
                let stored = ov("stored").unwrap_or_else(|| alg.hash(&ck));
                let proof = xor(&ck, &alg.hmac(&stored, &authmsg));
                let mut o = woproof;
                o.extend(b",p=");
                o.extend(STANDARD.encode(mutate(proof, &v["pmut"])).into_bytes());
                Some(o)
            }
            "sfinal" => {
                let sig = mutate(alg.hmac(&sk, &authmsg), &v["pmut"]);
                let mut o = b"v=".to_vec();
                o.extend(STANDARD.encode(sig).into_bytes());
                o.extend(ov("ext").unwrap_or_default());
                Some(o)
            }
            k => panic!("scenario: unknown scram message {k}"),
        }
    }

    /// A message put together from tokens, some of which stand for values of the exchange. The
    /// proof is one for the message as it is, whatever that is
    fn tokens(&self, v: &Value) -> Option<Vec<u8>> {
        let of = v["of"].as_u64().unwrap() as usize;
        let s = self.get(of);
        let mut o: Vec<u8> = vec![];
        for t in v["tokens"].as_array().unwrap() {
            match t.as_str() {
                None => o.extend(bytes(t)),
                Some("rc") => o.extend(attr(bare(s.outs.first()?), b'r')?),
                Some(t) => {
                    let (cf, sf) = if s.client {
                        (s.outs.first()?, s.ins.first()?)
                    } else {
                        (s.ins.first()?, s.outs.first()?)
                    };
                    match t {
                        "c" => {
                            let cbin = [gs2(cf), &bytes(&v["cbdata"])[..]].concat();
                            o.extend(STANDARD.encode(cbin).into_bytes());
                        }
                        "r" => o.extend(attr(sf, b'r')?),
                        "p" | "v" => {
                            let alg = Alg::of_mech(&s.mech);
                            let salted = alg.hi(
                                &bytes(&v["pw"]),
                                &STANDARD.decode(attr(sf, b's')?).ok()?,
                                String::from_utf8(attr(sf, b'i')?).ok()?.parse().ok()?,
                            );
                            let last = if t == "p" { &o } else { s.outs.get(1)? };
                            let n = last.windows(3).rposition(|w| w == b",p=").unwrap_or(last.len());
                            let msg = [bare(cf), b",", &sf[..], b",", &last[..n]].concat();
                            o.extend(
                                STANDARD.encode(if t == "p" {
                                    let ck = alg.hmac(&salted, b"Client Key");
                                    xor(&ck, &alg.hmac(&alg.hash(&ck), &msg))
                                } else {
                                    alg.hmac(&alg.hmac(&salted, b"Server Key"), &msg)
                                })
                                .into_bytes(),
                            );
                        }
                        t => panic!("scenario: unknown token {t}"),
                    }
                }
            }
        }
        Some(o)
    }

    /// Ok(None): no input. Err: the scenario can't produce this input (nothing to do)
    fn input(&self, v: &Value) -> Result<Option<Vec<u8>>, ()> {
        let raw = if v.is_null() {
            return Ok(None);
        } else if v.get("b").is_some() {
            bytes(&v["b"])
        } else if let Some(j) = v["last"].as_u64() {
            self.get(j as usize).outs.last().cloned().ok_or(())?
        } else if let Some(r) = v["rec"].as_array() {
            let s = self.get(r[0].as_u64().unwrap() as usize);
            s.outs.get(r[1].as_u64().unwrap() as usize).cloned().ok_or(())?
        } else if let Some(r) = v["recin"].as_array() {
            let s = self.get(r[0].as_u64().unwrap() as usize);
            s.ins.get(r[1].as_u64().unwrap() as usize).cloned().ok_or(())?
        } else if v.get("scram").is_some() {
            self.scram(v).ok_or(())?
        } else if v.get("tokens").is_some() {
            self.tokens(v).ok_or(())?
        } else {
            panic!("scenario: unknown input {v}")
        };
        let mut muts = v["mut"].clone();
        for mu in muts.as_array_mut().into_iter().flatten() {
            // bytes taken from an attribute of another message
            if let Some(f) = mu.get("from").and_then(|f| f.as_array()).cloned() {
                let s = self.get(f[0].as_u64().unwrap() as usize);
                let m = s.outs.get(f[1].as_u64().unwrap() as usize).ok_or(())?;
                let m = if f[1] == 0 && s.client { bare(m) } else { m };
                mu["b"] = json!(attr(m, f[2].as_str().unwrap().as_bytes()[0]).ok_or(())?);
            }
        }
        Ok(Some(mutate(raw, &muts)))
    }

    fn start(&mut self, j: usize, cfgs: &[Arc<SASLConfig>]) {
        let d = &self.spec["sess"][j];
        let cfg = cfgs[d["cfg"].as_u64().unwrap() as usize].clone();
        let client = d["side"] == "client";
        let prov = ProvCb(
            d["pcb"]
                .as_array()
                .map(|a| a.iter().map(|e| (e[0].as_str().unwrap().to_string(), bytes(&e[1]))).collect())
                .unwrap_or_default(),
        );
        // chosen by the scenario's name
        let hash = self.spec["id"].as_str().unwrap_or("").bytes().fold(j, |h, b| h.wrapping_mul(31).wrapping_add(b as usize));
        let (plain, odd) = (prov.0.is_empty() && hash % 3 != 0, hash / 3 % 2 == 0);
        let mut avail: Vec<String> = vec![];
        // what can be shown of a configuration
        let mut text = format!("{cfg:?} {cfg:#?}");
        if client && self.spec["diag"] == true {
            text += &format!(" {:?} {:#?}", SASLClient::new(cfg.clone()), SASLClient::new(cfg.clone()));
        }
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Sess, SASLError> {
            if client {
                let offers: Vec<String> = d["offers"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect();
                let offers: Vec<&Mechname> = offers.iter().map(|o| Mechname::parse(o.as_bytes()).expect("scenario: bad offer")).collect();
                // the ways to start a client mean the same
                match (plain, odd) {
                    (true, true) => SASLClient::new(cfg).start_suggested(&offers).map(Sess::NN),
                    (true, false) => SASLClient::new(cfg).start_suggested_iter(offers).map(Sess::NN),
                    (false, true) => SASLClient::with_cb(cfg, prov).start_suggested(&offers).map(Sess::N),
                    (false, false) => SASLClient::with_cb(cfg, prov).start_suggested_iter(offers.iter().copied()).map(Sess::N),
                }
            } else {
                let sel = d["sel"].as_str().unwrap();
                let sel = Mechname::parse(sel.as_bytes()).expect("scenario: bad selection");
                macro_rules! start {
                    ($srv:expr, $k:ident) => {{
                        let srv = $srv;
                        avail = srv.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
                        srv.start_suggested(sel).map(Sess::$k)
                    }};
                }
                match (d["val"] == "A", plain) {
                    (true, false) => start!(SASLServer::<ValA, _>::with_cb(cfg, prov), A),
                    (true, true) => start!(SASLServer::<ValA>::new(cfg), AN),
                    (false, false) => start!(SASLServer::<NoValidation, _>::with_cb(cfg, prov), N),
                    (false, true) => start!(SASLServer::<NoValidation>::new(cfg), NN),
                }
            }
        }));
        let mut e = json!({"e": "start", "s": j, "res": "ok", "mech": "", "first": false, "avail": avail});
        let mut sess = None;
        let mut name = String::new();
        if let Ok(Err(x)) = &r {
            text += &format!(" {x} {x:?}");
        }
        match r {
            Ok(Ok(s)) => {
                name = on!(&s, x => x.get_mechname().as_str().to_string());
                e["mech"] = json!(name);
                e["first"] = json!(on!(&s, x => x.are_we_first()));
                sess = Some(s);
            }
            Ok(Err(SASLError::NoSharedMechanism)) => e["res"] = json!("noshared"),
            Ok(Err(_)) => e["res"] = json!("err"),
            Err(_) => e["res"] = json!("panic"),
        }
        if self.spec["diag"] == true {
            e["text"] = json!(enc(text.as_bytes()));
        }
        self.ev.push(e);
        self.s.push(S {
            live: sess.is_some(),
            sess,
            poisoned: false,
            client,
            mech: name,
            ins: vec![],
            outs: vec![],
            encs: vec![],
            last: None,
        });
        self.idx.push(j);
    }

    /// One call of step/step64. Returns the decoded output if the call succeeded
    fn step(&mut self, j: usize, input: Option<Vec<u8>>, op: &Value) -> Option<(String, Vec<u8>)> {
        let gss = &self.spec["sess"][j]["gss"];
        let s = self.get_mut(j);
        // a session that came to its end is only stepped on purpose
        let after = op["after"] == true;
        if s.live == after || s.sess.is_none() || s.poisoned {
            return None;
        }
        let b64 = op["via"] == "step64";
        let given: Option<Vec<u8>> = match (&input, b64) {
            // raw64: the scenario gives the encoded text itself
            (Some(i), true) if op["raw64"] != true => Some(STANDARD.encode(i).into_bytes()),
            (i, _) => i.clone(),
        };
        let given = match (given, b64) {
            (Some(g), true) => Some(mutate(g, &op["mut64"])),
            (g, _) => g,
        };
        let mut w = W::new(&op["w"]);
        crate::gss::configure(gss);
        REC.with(|r| {
            *r.borrow_mut() = Rec {
                plan: op["plan"].as_array().cloned().unwrap_or_default(),
                ..Rec::default()
            }
        });
        let sess = s.sess.as_mut().unwrap();
        let (mut told, mut text) = (vec![], String::new());
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = on!(sess, x => if b64 { x.step64(given.as_deref(), &mut w) } else { x.step(given.as_deref(), &mut w) });
            match &r {
                Err(e) => (told, text) = tell(e),
                Ok(s) => {
                    text = format!("{s:?}");
                    told = [(s.is_running(), "running"), (s.is_finished(), "finished"), (s.has_sent_message(), "sent")]
                        .iter().filter(|x| x.0).map(|x| x.1).collect()
                }
            }
            r
        }));
        let rec = REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
        let (res, ek, en) = match &r {
            Ok(Ok(State::Running)) => ("run", String::new(), vec![]),
            Ok(Ok(State::Finished(MessageSent::Yes))) => ("finY", String::new(), vec![]),
            Ok(Ok(State::Finished(MessageSent::No))) => ("finN", String::new(), vec![]),
            Ok(Err(e)) => {
                let (k, n) = err_info(e);
                ("err", k, n)
            }
            Err(_) => {
                s.poisoned = true;
                ("panic", String::new(), vec![])
            }
        };
        let decoded = if b64 { STANDARD.decode(&w.out).ok() } else { Some(w.out.clone()) };
        let keeps = matches!(&r, Ok(Err(SessionError::InputDataRequired | SessionError::Base64 { .. })));
        s.live = !after && (res == "run" || keeps);
        s.last = Some(res.to_string());
        let ok = matches!(&r, Ok(Ok(_)));
        if !keeps && !after {
            let fed = if b64 { given.as_ref().and_then(|g| STANDARD.decode(g).ok()) } else { given.clone() };
            if let Some(f) = fed {
                s.ins.push(f);
            }
        }
        if ok && res != "finN" && !after {
            s.outs.push(decoded.clone().unwrap_or_default());
        }
        let mut e = json!({
            "e": if after { "after" } else { "step" }, "s": j, "via": if b64 { "step64" } else { "step" },
            "in": given.iter().map(|g| enc(g)).collect::<Vec<_>>(),
            "res": res, "ek": ek, "en": en, "out": enc(&w.out), "wref": w.refused, "wkind": enc(w.kind.as_bytes()), "told": told,
            "cbs": rec.cbs, "vals": rec.vals,
            "plan": op["plan"].as_array().cloned().unwrap_or_default(),
        });
        if self.spec["diag"] == true {
            e["text"] = json!(enc(text.as_bytes()));
        }
        self.ev.push(e);
        ok.then(|| (res.to_string(), decoded.unwrap_or_default()))
    }

    fn other(&mut self, op: &Value) {
        let j = op["s"].as_u64().unwrap() as usize;
        let kind = op["op"].as_str().unwrap();
        crate::gss::configure(&self.spec["sess"][j]["gss"]);
        // data given, or what a session encoded
        let data = match op["rec"].as_array() {
            None => bytes(&op["b"]),
            Some(r) => {
                let from = self.get(r[0].as_u64().unwrap() as usize);
                match from.encs.get(r[1].as_u64().unwrap() as usize) {
                    Some(e) => mutate(e.clone(), &op["mut"]),
                    None => return,
                }
            }
        };
        let s = self.get_mut(j);
        if s.sess.is_none() || s.poisoned {
            return;
        }
        let sess = s.sess.as_mut().unwrap();
        let mut e = json!({"e": kind, "s": j});
        match kind {
            "validation" => {
                let v: Option<Vec<u8>> = match sess {
                    Sess::A(x) => x.validation(),
                    Sess::N(x) => x.validation().map(|_| vec![]),
                    Sess::AN(x) => x.validation(),
                    Sess::NN(x) => x.validation().map(|_| vec![]),
                };
                e["v"] = json!(v.iter().map(|v| enc(v)).collect::<Vec<_>>());
            }
            "has" => e["v"] = json!(on!(sess, x => x.has_security_layer())),
            "info" => {
                e["mech"] = json!(on!(sess, x => x.get_mechname().as_str().to_string()));
                e["first"] = json!(on!(sess, x => x.are_we_first()));
            }
            "enc" | "dec" => {
                let mut w = W::new(&op["w"]);
                let b = data;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    on!(sess, x => if kind == "enc" { x.encode(&b, &mut w) } else { x.decode(&b, &mut w) })
                }));
                let (res, n, ek) = match &r {
                    Ok(Ok(n)) => ("ok", *n, String::new()),
                    Ok(Err(err)) => ("err", 0, err_info(err).0),
                    Err(_) => ("panic", 0, String::new()),
                };
                e["res"] = json!(res);
                e["n"] = json!(n);
                e["ek"] = json!(ek);
                e["in"] = json!(enc(&b));
                e["out"] = json!(enc(&w.out));
                e["wref"] = json!(w.refused);
                if kind == "enc" && res == "ok" {
                    s.encs.push(w.out);
                }
                if r.is_err() {
                    s.poisoned = true;
                    s.live = false;
                }
            }
            k => panic!("scenario: unknown op {k}"),
        }
        self.ev.push(e);
    }

    /// Deliver messages between a client and a server the way a protocol does
    fn talk(&mut self, op: &Value) {
        let (c, v) = (op["c"].as_u64().unwrap() as usize, op["v"].as_u64().unwrap() as usize);
        let status = self.talk_inner(op, c, v);
        self.ev.push(json!({"e": "talkend", "s": c, "v": v, "status": status.0, "n": status.1, "strict": op["inj"].as_array().map(|a| a.iter().all(|i| i.get("mut").is_none())).unwrap_or(true)}));
    }
    fn talk_inner(&mut self, op: &Value, c: usize, v: usize) -> (&'static str, usize) {
        if self.get(c).sess.is_none() || self.get(v).sess.is_none() {
            return ("nostart", 0);
        }
        let cfirst = on!(self.get(c).sess.as_ref().unwrap(), x => x.are_we_first());
        let sfirst = on!(self.get(v).sess.as_ref().unwrap(), x => x.are_we_first());
        if cfirst == sfirst {
            return ("nofirst", 0);
        }
        let mut cur = if cfirst { c } else { v };
        let mut input: Option<Vec<u8>> = None;
        let (mut cdone, mut vdone) = (false, false);
        let mut msgs = 0usize;
        let none = vec![];
        for k in 0..16 {
            let mut sop = json!({"via": op["via"].as_str().unwrap_or("step")});
            if op["via"] == "mix" {
                sop["via"] = json!(if k % 2 == 0 { "step64" } else { "step" });
            }
            for i in op["inj"].as_array().unwrap_or(&none) {
                if i["at"].as_u64() != Some(k) {
                    continue;
                }
                if i["none"] == true && input.is_some() {
                    // ask without the message first; an implementation that accepts that went on
                    if self.step(cur, None, &sop).is_some() {
                        return ("nonetaken", msgs);
                    }
                    if !self.get(cur).live {
                        return ("error", msgs);
                    }
                }
                if i["bad64"] == true && input.is_some() {
                    let o = json!({"via": "step64", "mut64": [{"m": "app", "b": [61]}]});
                    if self.step(cur, input.clone(), &o).is_some() {
                        return ("bad64taken", msgs);
                    }
                    if !self.get(cur).live {
                        return ("error", msgs);
                    }
                }
                if let Some(m) = i.get("mut") {
                    input = input.map(|b| mutate(b, m));
                }
                if i.get("w").is_some() {
                    sop["w"] = i["w"].clone();
                }
                if let Some(ops) = i["ops"].as_array() {
                    for o in ops {
                        let mut o = o.clone();
                        o["s"] = json!(cur);
                        self.other(&o);
                    }
                }
            }
            let r = match self.step(cur, input.take(), &sop) {
                None => return ("error", msgs),
                Some(r) => r,
            };
            let other = if cur == c { v } else { c };
            let odone = if cur == c { vdone } else { cdone };
            if r.0 != "run" {
                if cur == c {
                    cdone = true
                } else {
                    vdone = true
                }
            }
            if r.0 != "finN" {
                msgs += 1;
                if odone {
                    return ("undeliv", msgs);
                }
                input = Some(r.1);
            } else {
                if odone {
                    return ("done", msgs);
                }
                // the server's outcome counts as an empty message, a client that is done can't help
                if cur == c {
                    return ("stuck", msgs);
                }
                input = None;
            }
            if cdone && vdone {
                return ("done", msgs);
            }
            cur = other;
        }
        ("endless", msgs)
    }

    fn op(&mut self, op: &Value) {
        match op["op"].as_str().unwrap() {
            "step" => {
                let j = op["s"].as_u64().unwrap() as usize;
                if let Ok(i) = self.input(&op["in"]) {
                    self.step(j, i, op);
                }
            }
            "talk" => self.talk(op),
            _ => self.other(op),
        }
    }
}

fn mechname(spec: &Value) -> Vec<Value> {
    let mut ev = vec![];
    let none = vec![];
    for n in spec["names"].as_array().unwrap_or(&none) {
        let b = bytes(n);
        let show = |r: Result<&Mechname, MechanismNameError>| match r {
            Ok(m) => json!({"r": "ok", "i": 0, "v": 0, "bytes": enc(m.as_bytes()), "str": enc(m.as_str().as_bytes()),
                "disp": enc(m.to_string().as_bytes()), "deref": enc(<Mechname as std::ops::Deref>::deref(m).as_bytes())}),
            Err(e) => {
                let (r, i, v) = match e {
                    MechanismNameError::TooShort => ("short", 0, 0),
                    MechanismNameError::InvalidChar { index, value } => ("invalid", index, value),
                    _ => ("other", 0, 0),
                };
                json!({"r": r, "i": i, "v": v, "bytes": [], "str": [], "disp": [], "deref": []})
            }
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let p = show(Mechname::parse(&b));
            let t = show(<&Mechname>::try_from(&b[..]));
            let s = match std::str::from_utf8(&b) {
                Ok(s) => vec![show(<&Mechname>::try_from(s))],
                Err(_) => vec![],
            };
            json!({"e": "mechname", "s": 0, "in": enc(&b), "panic": false, "parse": p, "try": t, "trys": s})
        }));
        ev.push(r.unwrap_or_else(|_| json!({"e": "mechname", "s": 0, "in": enc(&b), "panic": true, "parse": {"r": ""}, "try": {"r": ""}, "trys": []})));
    }
    for p in spec["pairs"].as_array().unwrap_or(&none) {
        let (a, b) = (bytes(&p[0]), bytes(&p[1]));
        let m = Mechname::parse(&a).expect("scenario: pair must start with a valid name");
        let mut eqs = vec![
            *m == b[..],
            b[..] == *m,
            m == &b[..],
            &b[..] == m,
        ];
        if let Ok(s) = std::str::from_utf8(&b) {
            eqs.extend([*m == *s, *s == *m]);
        }
        if let Ok(n) = Mechname::parse(&b) {
            eqs.extend([m == n, n == m, !(m != n)]);
        }
        ev.push(json!({"e": "mecheq", "s": 0, "a": enc(&a), "b": enc(&b), "eqs": eqs}));
    }
    ev
}

pub fn run(spec: &Value) -> Value {
    let none = vec![];
    let mut ev = vec![];
    if spec["suite"] == "mechname" {
        ev = mechname(spec);
    }
    let sess = spec["sess"].as_array().unwrap_or(&none);
    let mut cfgs: Vec<Arc<SASLConfig>> = vec![];
    for c in spec["cfgs"].as_array().unwrap_or(&none) {
        match catch_unwind(AssertUnwindSafe(|| config(c))) {
            Ok(Ok(c)) => cfgs.push(c),
            // making a configuration never fails
            _ => ev.push(json!({"e": "config", "s": 0})),
        }
    }
    let sess = if ev.iter().any(|e| e["e"] == "config") { &none } else { sess };
    let group = |v: &Value| v["g"].as_u64().unwrap_or(0) as usize;
    let groups = sess.iter().map(group).max().map_or(0, |g| g + 1);
    let barrier = Barrier::new(groups.max(1));
    let per_group: Vec<Vec<Value>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..groups)
            .map(|g| {
                let (cfgs, barrier) = (&cfgs, &barrier);
                let body = move || {
                    let mut r = Run { s: vec![], idx: vec![], ev: vec![], spec };
                    if groups > 1 {
                        barrier.wait();
                    }
                    for (j, d) in sess.iter().enumerate() {
                        if group(d) == g {
                            r.start(j, cfgs);
                        }
                    }
                    for op in spec["ops"].as_array().unwrap_or(&vec![]) {
                        let first = op.get("s").or(op.get("c")).unwrap().as_u64().unwrap() as usize;
                        if group(&sess[first]) == g {
                            r.op(op);
                        }
                    }
                    r.ev
                };
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, body).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("executor failed")).collect()
    });
    for g in per_group {
        ev.extend(g);
    }
    let mut o = Map::new();
    for k in ["id", "suite", "cfgs", "sess", "exp"] {
        if let Some(v) = spec.get(k) {
            o.insert(k.to_string(), v.clone());
        }
    }
    o.insert("ev".into(), Value::Array(ev));
    Value::Object(o)
}

/// Random values of many sessions, started on several threads
pub fn draws(process: &str, n: usize, out: &str) {
    struct None_;
    impl rsasl::callback::SessionCallback for None_ {
        fn callback(&self, _: &rsasl::callback::SessionData, _: &rsasl::callback::Context, r: &mut rsasl::callback::Request) -> Result<(), SessionError> {
            r.satisfy::<rsasl::property::AuthId>("user")?.satisfy::<rsasl::property::Password>(b"x")?;
            Ok(())
        }
    }
    let attr = |m: &[u8], k: &str| -> String {
        let m = String::from_utf8(m.to_vec()).unwrap_or_default();
        m.split(',').find_map(|f| f.strip_prefix(k)).unwrap_or("").to_string()
    };
    let threads = 4;
    let lines: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let mut lines = vec![];
                    let share = SASLConfig::builder().with_defaults().with_callback(None_).expect("config");
                    for (j, name) in ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"].into_iter().enumerate() {
                        let (mut c, mut s, mut f) = (vec![], vec![], vec![]);
                        for i in 0..n / threads / 3 {
                            // half of them with a configuration of their own
                            let cfg = if (i + j) % 2 == 0 { share.clone() } else { SASLConfig::builder().with_defaults().with_callback(None_).expect("config") };
                            let (mut m, mut out) = (vec![], vec![]);
                            let name = Mechname::parse(name.as_bytes()).unwrap();
                            if let Ok(mut x) = SASLClient::new(cfg.clone()).start_suggested(&[name]) {
                                let _ = x.step(None, &mut m);
                                c.push(attr(&m, "r="));
                            }
                            if let Ok(mut x) = SASLServer::<NoValidation>::new(cfg).start_suggested(name) {
                                let _ = x.step(Some(b"n,,n=user,r=0123456789abcdefghijklmn"), &mut out);
                                let r = attr(&out, "r=");
                                s.push(r.strip_prefix("0123456789abcdefghijklmn").unwrap_or("").to_string());
                                f.push(attr(&out, "s="));
                            }
                        }
                        lines.extend([("client", c), ("server", s), ("salt", f)].map(|(k, d)| json!({"k": k, "p": process, "t": t, "m": name, "d": d})));
                    }
                    lines
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("draws failed")).collect()
    });
    let mut o = io::BufWriter::new(std::fs::File::create(out).expect("output"));
    for l in lines {
        writeln!(o, "{l}").expect("write");
    }
}
