//! The properties the harness knows, by name, and their uniform byte encoding. Numbers above 255
//! are used as separators in structured values, so that no two values share an encoding.
use rsasl::callback::{Context, Request};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService};
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerErrored, OAuthBearerValidate};
use rsasl::mechanisms::scram::properties::{
    Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword,
};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::property::*;

pub type Enc = Vec<u32>;

pub fn enc(b: &[u8]) -> Enc {
    b.iter().map(|x| *x as u32).collect()
}
pub fn enc_kv(kv: &[(&str, &str)]) -> Enc {
    let mut o = vec![];
    for (k, v) in kv {
        o.extend(enc(k.as_bytes()));
        o.push(256);
        o.extend(enc(v.as_bytes()));
        o.push(257);
    }
    o
}
pub fn enc_opt(o: &mut Enc, v: Option<&str>) {
    match v {
        Some(v) => {
            o.push(258);
            o.extend(enc(v.as_bytes()))
        }
        None => o.push(259),
    }
}

/// Everything a context yields
pub fn context_values(c: &Context) -> Vec<(&'static str, Enc)> {
    let mut o: Vec<(&'static str, Enc)> = vec![];
    macro_rules! s {
        ($($p:ident),*) => {$( if let Some(v) = c.get_ref::<$p>() { o.push((stringify!($p), enc(v.as_bytes()))); } )*}
    }
    macro_rules! b {
        ($($p:ident),*) => {$( if let Some(v) = c.get_ref::<$p>() { o.push((stringify!($p), enc(v))); } )*}
    }
    s!(
        AuthId, AuthzId, AnonymousToken, OAuthBearerToken, ChannelBindingName, OverrideCBType,
        Hostname, Realm, Service, GssService, XOAuth2Error
    );
    b!(Password, ChannelBindings, Salt, SaltedPassword);
    if let Some(v) = c.get_ref::<Iterations>() {
        o.push(("Iterations", enc(v.to_string().as_bytes())));
    }
    if let Some(v) = c.get_ref::<OAuthBearerKV>() {
        o.push(("OAuthBearerKV", enc_kv(v)));
    }
    o.sort();
    o
}

/// Names of all properties the request claims to be for
pub fn request_is(r: &Request) -> Vec<&'static str> {
    let mut o = vec![];
    macro_rules! i {
        ($($p:ident),*) => {$( if r.is::<$p>() { o.push(stringify!($p)); } )*}
    }
    i!(
        AuthId, AuthzId, AnonymousToken, OAuthBearerToken, ChannelBindingName, OverrideCBType,
        Hostname, Realm, Service, GssService, XOAuth2Error, Password, ChannelBindings, Salt,
        SaltedPassword, Iterations, OAuthBearerKV, XOAuth2Validate, OAuthBearerValidate,
        OAuthBearerErrored, GssSecurityLayer
    );
    if r.is::<ScramStoredPassword>() {
        o.push("ScramStoredPassword");
    }
    if r.is::<ScramCachedPassword>() {
        o.push("ScramCachedPassword");
    }
    o
}
