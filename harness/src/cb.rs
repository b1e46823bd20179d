//! The scripted user callback. It performs the operations a scenario prescribes and records what
//! it observed; the specification decides what should have been observed.
use crate::props::*;
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService, SecurityLayer};
use rsasl::mechanisms::oauthbearer::properties::{
    OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate,
};
use rsasl::mechanisms::scram::properties::*;
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::{Mechanism, SessionError, Validation};
use rsasl::property::*;
use rsasl::validate::{Validate, ValidationError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Default)]
pub struct Rec {
    pub cbs: Vec<Value>,
    pub vals: Vec<Value>,
    pub plan: Vec<Value>,
}
thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

pub struct ValA;
impl Validation for ValA {
    type Value = Vec<u8>;
}
pub struct ValB;
impl Validation for ValB {
    type Value = Vec<u8>;
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}
pub fn string(v: &Value) -> String {
    // Scenarios only put valid UTF-8 where rsasl takes `str`
    String::from_utf8(bytes(v)).expect("scenario: not UTF-8")
}
pub fn opt(v: &Value) -> Option<&Value> {
    v.as_array().and_then(|a| a.first())
}

pub fn err_info(e: &SessionError) -> (String, Enc) {
    use rsasl::mechanism::MechanismErrorKind;
    let (k, n): (&str, String) = match e {
        SessionError::Io { source } => ("io", format!("{:?}", source.kind())),
        SessionError::Base64 { .. } => ("base64", String::new()),
        SessionError::NoSecurityLayer => ("nosec", String::new()),
        SessionError::InputDataRequired => ("input", String::new()),
        SessionError::MechanismDone => ("done", String::new()),
        SessionError::MechanismError(m) => (
            "mech",
            match m.kind() {
                MechanismErrorKind::Parse => "parse",
                MechanismErrorKind::Protocol => "protocol",
                MechanismErrorKind::Outcome => "outcome",
                _ => "other",
            }
            .to_string(),
        ),
        SessionError::CallbackError(CallbackError::NoValue) => ("novalue", String::new()),
        SessionError::CallbackError(CallbackError::NoCallback(n)) => {
            let n = n.split('<').next().unwrap();
            ("nocb", n.rsplit("::").next().unwrap().to_string())
        }
        SessionError::CallbackError(_) => ("early", String::new()),
        SessionError::ValidationError(ValidationError::Boxed(e)) => ("val", e.to_string()),
        SessionError::ValidationError(_) => ("val", "missing".to_string()),
        SessionError::Boxed(e) => ("boxed", e.to_string()),
        SessionError::NoValidate => ("novalidate", String::new()),
        SessionError::MutualAuthenticationFailed => ("mutual", String::new()),
        SessionError::MissingChannelBindingData(n) => ("cb", n.clone()),
        _ => ("other", String::new()),
    };
    (k.to_string(), enc(n.as_bytes()))
}

pub fn make_err(v: &Value) -> SessionError {
    match v["k"].as_str().unwrap() {
        "novalue" => SessionError::CallbackError(CallbackError::NoValue),
        "nocb" => SessionError::CallbackError(CallbackError::NoCallback("user::Custom")),
        "boxed" => SessionError::Boxed(string(&v["n"]).into()),
        "input" => SessionError::InputDataRequired,
        "mutual" => SessionError::MutualAuthenticationFailed,
        "cb" => SessionError::MissingChannelBindingData(string(&v["n"])),
        "io" => SessionError::Io {
            source: std::io::Error::new(std::io::ErrorKind::Other, "callback"),
        },
        k => panic!("scenario: unknown error {k}"),
    }
}

pub struct Cb {
    pub script: Vec<Value>,
    pub val: Vec<Value>,
    pub cb: bool,
    pub prefer: Value,
}

fn sd_json(sd: &SessionData) -> Value {
    json!({"mech": sd.mechanism().mechanism.as_str(), "side": format!("{:?}", sd.side()).to_lowercase()})
}

/// Result of one request operation: recorded text and, if the operation failed, the error
type OpRes = Result<(), SessionError>;

fn satisfy(request: &mut Request, op: &Value, ctx: &Context) -> OpRes {
    macro_rules! by_name {
        ($name:expr; str: $($s:ident),*; bytes: $($b:ident),*) => {
            match $name {
                $( stringify!($s) => request.satisfy::<$s>(string(&op["v"]).as_str()).map(|_| ()), )*
                $( stringify!($b) => request.satisfy::<$b>(&bytes(&op["v"])).map(|_| ()), )*
                "Iterations" => request.satisfy::<Iterations>(&string(&op["v"]).parse::<u32>().unwrap()).map(|_| ()),
                "GssSecurityLayer" => request.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_truncate(bytes(&op["v"])[0])).map(|_| ()),
                "OAuthBearerKV" => {
                    let kv: Vec<(String, String)> = op["kv"].as_array().unwrap().iter().map(|p| (string(&p[0]), string(&p[1]))).collect();
                    let kv: Vec<(&str, &str)> = kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                    request.satisfy::<OAuthBearerKV>(&kv).map(|_| ())
                }
                "ScramCachedPassword" => {
                    let (c, s) = (bytes(&op["ck"]), bytes(&op["sk"]));
                    request.satisfy::<ScramCachedPassword>(&ScramCachedPassword::new(&c, &s)).map(|_| ())
                }
                "ScramStoredPassword" => {
                    // look the user up by the name the mechanism provides
                    let user = ctx.get_ref::<AuthId>().map(|u| u.as_bytes().to_vec());
                    let found = op["users"].as_array().unwrap().iter().find(|u| Some(bytes(&u["user"])) == user);
                    match found {
                        Some(u) => {
                            let (salt, st, sk) = (bytes(&u["salt"]), bytes(&u["stored"]), bytes(&u["server"]));
                            request.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(
                                string(&u["iter"]).parse().unwrap(), &salt, &st, &sk)).map(|_| ())
                        }
                        None => Ok(()),
                    }
                }
                "XOAuth2Validate" => {
                    let e = opt(&op["e"]).map(string);
                    let r = match &e { None => Ok(()), Some(e) => Err(e.as_str()) };
                    request.satisfy::<XOAuth2Validate>(&r).map(|_| ())
                }
                "OAuthBearerValidate" => {
                    let e = opt(&op["e"]).map(|e| (string(&e["status"]), opt(&e["scope"]).map(string), opt(&e["conf"]).map(string)));
                    let r = match &e { None => Ok(()), Some((s, c, o)) => Err(OAuthBearerError::new(s, c.as_deref(), o.as_deref())) };
                    request.satisfy::<OAuthBearerValidate>(&r).map(|_| ())
                }
                p => panic!("scenario: can't satisfy {p}"),
            }
        };
    }
    by_name!(op["p"].as_str().unwrap();
        str: AuthId, AuthzId, AnonymousToken, OAuthBearerToken, OverrideCBType, Hostname, Realm, Service, GssService;
        bytes: Password, ChannelBindings, SaltedPassword, Salt)
}

fn satisfy_with(request: &mut Request, op: &Value, called: &mut bool) -> OpRes {
    let fail = opt(&op["f"]);
    match op["p"].as_str().unwrap() {
        "Iterations" => request
            .satisfy_with::<Iterations, _>(|| {
                *called = true;
                match fail {
                    Some(f) => Err(make_err(f)),
                    None => Ok(string(&op["v"]).parse::<u32>().unwrap()),
                }
            })
            .map(|_| ()),
        "XOAuth2Validate" => {
            let e = opt(&op["e"]).map(string);
            request
                .satisfy_with::<XOAuth2Validate, _>(|| {
                    *called = true;
                    match fail {
                        Some(f) => Err(make_err(f)),
                        None => Ok(match &e {
                            None => Ok(()),
                            Some(e) => Err(e.as_str()),
                        }),
                    }
                })
                .map(|_| ())
        }
        "GssSecurityLayer" => request
            .satisfy_with::<GssSecurityLayer, _>(|| {
                *called = true;
                match fail {
                    Some(f) => Err(make_err(f)),
                    None => Ok(SecurityLayer::from_bits_truncate(bytes(&op["v"])[0])),
                }
            })
            .map(|_| ()),
        p => panic!("scenario: can't satisfy_with {p}"),
    }
}

fn get_action(request: &mut Request, p: &str) -> Option<Enc> {
    macro_rules! s { ($($s:ident),*) => { match p {
        $( stringify!($s) => request.get_action::<$s>().map(|v| enc(v.as_bytes())), )*
        "Password" => request.get_action::<Password>().map(enc),
        "Iterations" => request.get_action::<Iterations>().map(|v| enc(v.to_string().as_bytes())),
        "ScramCachedPassword" => request.get_action::<ScramCachedPassword>().map(|v| {
            let mut o = enc(v.client_key); o.push(256); o.extend(enc(v.server_key)); o }),
        "OAuthBearerErrored" => request.get_action::<OAuthBearerErrored>().map(|v| {
            let mut o = vec![]; enc_opt(&mut o, Some(v.status)); enc_opt(&mut o, v.scope); enc_opt(&mut o, v.openid_config); o }),
        p => panic!("scenario: can't take action {p}"),
    } } }
    s!(AuthId, AuthzId, Hostname, XOAuth2Error, OAuthBearerToken)
}

/// The default implementations: what they are handed changes nothing
struct Default_;
impl SessionCallback for Default_ {}

impl SessionCallback for Cb {
    fn callback(
        &self,
        sd: &SessionData,
        ctx: &Context,
        request: &mut Request,
    ) -> Result<(), SessionError> {
        let is = request_is(request);
        let mut ops = vec![];
        let mut ret = Ok(());
        for op in &self.script {
            let (r, called, act): (OpRes, bool, Option<Enc>) = match op["op"].as_str().unwrap() {
                "sat" => (satisfy(request, op, ctx), false, None),
                "satw" => {
                    let mut called = false;
                    let r = satisfy_with(request, op, &mut called);
                    (r, called, None)
                }
                "act" => (Ok(()), false, get_action(request, op["p"].as_str().unwrap())),
                "err" => (Err(make_err(op)), false, None),
                // fail only requests for the given property
                "errp" => {
                    if is.contains(&op["p"].as_str().unwrap()) {
                        (Err(make_err(op)), false, None)
                    } else {
                        (Ok(()), false, None)
                    }
                }
                // leave the callback, reporting success
                "ret" => break,
                o => panic!("scenario: unknown callback op {o}"),
            };
            let (rk, rn) = match &r {
                Ok(()) => ("ok".to_string(), vec![]),
                Err(e) => err_info(e),
            };
            let mut j = json!({"r": rk, "n": rn, "called": called, "act": []});
            if let Some(a) = act {
                j["act"] = json!([a]);
            }
            ops.push(j);
            // "q": the callback uses `?` on the operation
            if let Err(e) = r {
                if op["op"] == "err" || op["op"] == "errp" || op["q"] == true {
                    ret = Err(e);
                    break;
                }
            }
        }
        REC.with(|r| {
            r.borrow_mut().cbs.push(json!({
                "is": is, "ctx": context_values(ctx), "sd": sd_json(sd), "ops": ops,
            }))
        });
        ret.and_then(|()| Default_.callback(sd, ctx, request))
    }

    fn enable_channel_binding(&self) -> bool {
        self.cb || Default_.enable_channel_binding()
    }

    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        let Some(prefer) = opt(&self.prefer) else {
            return Default_.prefer(a, b);
        };
        // A table of ranks; rank < 0: prefer nothing over this mechanism
        let rank = |m: &Mechanism| {
            prefer
                .as_array()
                .unwrap()
                .iter()
                .find(|p| p[0] == m.mechanism.as_str())
                .map_or(0, |p| p[1].as_i64().unwrap())
        };
        match a {
            None => {
                if rank(b) < 0 {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
            Some(a) => rank(a).cmp(&rank(b)),
        }
    }

    fn validate(
        &self,
        sd: &SessionData,
        ctx: &Context,
        validate: &mut Validate<'_>,
    ) -> Result<(), ValidationError> {
        REC.with(|r| {
            r.borrow_mut().vals.push(json!({
                "ctx": context_values(ctx), "sd": sd_json(sd),
                "isa": validate.is::<ValA>(), "isb": validate.is::<ValB>(),
            }))
        });
        for op in &self.val {
            let v = match op["ctx"].as_str().filter(|c| !c.is_empty()) {
                // the outcome carries the identity of this exchange
                Some(p) => context_values(ctx)
                    .iter()
                    .find(|(n, _)| *n == p)
                    .map(|(_, v)| v.iter().map(|x| *x as u8).collect())
                    .unwrap_or_default(),
                None => bytes(&op["v"]),
            };
            match (op["op"].as_str().unwrap(), op["t"].as_str()) {
                ("fin", Some("A")) => validate.finalize::<ValA>(v),
                ("fin", _) => validate.finalize::<ValB>(v),
                ("with", t) => {
                    let f = || match opt(&op["f"]) {
                        Some(f) => Err(ValidationError::Boxed(string(f).into())),
                        None => Ok(v),
                    };
                    let r = if t == Some("A") {
                        validate.with::<ValA, _>(f).map(|_| ())
                    } else {
                        validate.with::<ValB, _>(f).map(|_| ())
                    };
                    if op["q"] == true {
                        r?;
                    }
                }
                ("err", _) => {
                    return Err(match opt(&op["n"]) {
                        Some(n) => ValidationError::Boxed(string(n).into()),
                        None => ValidationError::MissingRequiredProperty,
                    })
                }
                (o, _) => panic!("scenario: unknown validate op {o}"),
            }
        }
        Default_.validate(sd, ctx, validate)
    }
}

/// Channel binding data of the protocol implementation
#[derive(Default)]
pub struct ProvCb(pub Vec<(String, Vec<u8>)>);
impl rsasl::prelude::ChannelBindingCallback for ProvCb {
    fn get_cb_data(&self, cbname: &str) -> Option<&[u8]> {
        self.0.iter().find(|(n, _)| n == cbname).map(|(_, d)| &d[..])
    }
}
