//! What the configurations hold when the library was built with some of its features only.
//! rsasl-features NAMES OFFERS FILE: the mechanism names to try, groups of them offered together (JSON)
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::config::SASLConfig;
use rsasl::prelude::*;
use rsasl::validate::NoValidation;
use serde_json::{json, Value};
use std::sync::Arc;

struct Nothing(bool);
impl SessionCallback for Nothing {
    fn callback(&self, _: &SessionData, _: &Context, _: &mut Request) -> Result<(), SessionError> {
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        self.0
    }
}

fn start(cfg: &Arc<SASLConfig>, offers: &[&str]) -> Value {
    let o: Vec<&Mechname> = offers.iter().map(|n| Mechname::parse(n.as_bytes()).unwrap()).collect();
    match SASLClient::new(cfg.clone()).start_suggested(&o) {
        Ok(s) => json!([s.get_mechname().as_str()]),
        Err(_) => json!([]),
    }
}
fn serve(cfg: &Arc<SASLConfig>, name: &str) -> bool {
    SASLServer::<NoValidation>::new(cfg.clone()).start_suggested(Mechname::parse(name.as_bytes()).unwrap()).is_ok()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let groups: Vec<Vec<String>> = serde_json::from_str(&a[1]).unwrap();
    let b = SASLConfig::builder;
    let cfgs = [
        ("cred", SASLConfig::with_credentials(None, "user".into(), "pw".into())),
        ("authz", SASLConfig::with_credentials(Some("other".into()), "user".into(), "pw".into())),
        ("default", b().with_default_mechanisms().with_callback(Nothing(false))),
        ("default", b().with_defaults().with_callback(Nothing(true))),
    ];
    let mut all = Vec::new();
    for (kind, cfg) in cfgs {
        let cfg = cfg.unwrap();
        let server = SASLServer::<NoValidation>::new(cfg.clone());
        let avail: Vec<String> = server.get_available().into_iter().map(|m| m.mechanism.to_string()).collect();
        let client: Vec<Value> = groups
            .iter()
            .map(|g| {
                let g: Vec<&str> = g.iter().map(|x| x.as_str()).collect();
                json!({"offers": g, "got": start(&cfg, &g), "served": g.iter().filter(|n| serve(&cfg, n)).collect::<Vec<_>>()})
            })
            .collect();
        all.push(json!({"kind": kind, "avail": avail, "tried": client}));
    }
    println!("{}", Value::Array(all));
}
