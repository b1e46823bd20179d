//! Mechanisms of the harness itself, used to drive the framework parts that the built-in
//! mechanisms exercise only in a few fixed ways. Each step follows a plan given by the scenario.
use crate::cb::*;
use rsasl::mechanism::*;
use rsasl::mechanisms::scram::properties::{Iterations, Salt};
use rsasl::mechname::Mechname;
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::{Matches, Named, Selection, Selector, Side};
use serde_json::Value;
use std::io::Write;

pub struct Planned;

#[derive(Default)]
struct Prov {
    s: Vec<(String, String)>,
    salt: Option<Vec<u8>>,
    iter: Option<u32>,
    pw: Option<Vec<u8>>,
}
impl Prov {
    fn new(v: &Value) -> Self {
        let mut p = Prov::default();
        for e in v.as_array().unwrap() {
            let n = e[0].as_str().unwrap();
            match n {
                "Salt" => p.salt = Some(bytes(&e[1])),
                "Password" => p.pw = Some(bytes(&e[1])),
                "Iterations" => p.iter = Some(string(&e[1]).parse().unwrap()),
                _ => p.s.push((n.to_string(), string(&e[1]))),
            }
        }
        p
    }
}
impl<'a> Provider<'a> for &'a Prov {
    fn provide(&self, req: &mut Demand<'a>) -> DemandReply<()> {
        for (n, v) in &self.s {
            match n.as_str() {
                "AuthId" => req.provide_ref::<AuthId>(v)?.done()?,
                "AuthzId" => req.provide_ref::<AuthzId>(v)?.done()?,
                "Hostname" => req.provide_ref::<Hostname>(v)?.done()?,
                "Realm" => req.provide_ref::<Realm>(v)?.done()?,
                n => panic!("scenario: can't provide {n}"),
            }
        }
        if let Some(v) = &self.salt {
            req.provide_ref::<Salt>(v)?;
        }
        if let Some(v) = &self.pw {
            req.provide_ref::<Password>(v)?;
        }
        if let Some(v) = &self.iter {
            req.provide_ref::<Iterations>(v)?;
        }
        req.done()
    }
}

fn request<'x>(
    session: &mut MechanismData,
    p: &'x (dyn Provider<'x> + 'x),
    r: &Value,
    writer: &mut dyn Write,
) -> Result<(), SessionError> {
    let closure_err = opt(&r["cl"]);
    macro_rules! need {
        ($m:ident, $t:ty, $conv:expr) => {{
            let out = session.$m::<$t, _, _>(p, |v| match closure_err {
                Some(e) => Err(make_err(e)),
                None => Ok($conv(v)),
            })?;
            Some(out)
        }};
    }
    let st = |s: &str| s.as_bytes().to_vec();
    let by = |s: &[u8]| s.to_vec();
    let it = |s: &u32| s.to_string().into_bytes();
    let got: Option<Vec<u8>> = match (r["do"].as_str().unwrap(), r["p"].as_str().unwrap()) {
        ("need", "AuthId") => need!(need_with, AuthId, st),
        ("need", "AuthzId") => need!(need_with, AuthzId, st),
        ("need", "Password") => need!(need_with, Password, by),
        ("need", "Iterations") => need!(need_with, Iterations, it),
        ("maybe", "AuthId") => need!(maybe_need_with, AuthId, st).flatten(),
        ("maybe", "AuthzId") => need!(maybe_need_with, AuthzId, st).flatten(),
        ("maybe", "Password") => need!(maybe_need_with, Password, by).flatten(),
        ("maybe", "Iterations") => need!(maybe_need_with, Iterations, it).flatten(),
        ("action", "AuthId") => {
            session.action::<AuthId>(p, &string(&r["v"]))?;
            None
        }
        ("action", "Password") => {
            session.action::<Password>(p, &bytes(&r["v"]))?;
            None
        }
        ("action", "Iterations") => {
            session.action::<Iterations>(p, &string(&r["v"]).parse().unwrap())?;
            None
        }
        (d, p) => panic!("scenario: unknown plan {d} {p}"),
    };
    // The message shows which answer the mechanism got
    match got {
        Some(v) => {
            writer.write_all(b"+")?;
            writer.write_all(&v)?;
        }
        None => writer.write_all(b"-")?,
    }
    Ok(())
}

impl Authentication for Planned {
    fn step(
        &mut self,
        session: &mut MechanismData,
        input: Option<&[u8]>,
        writer: &mut dyn Write,
    ) -> Result<State, SessionError> {
        let plan = REC.with(|r| r.borrow().plan.clone());
        for r in &plan {
            match r["do"].as_str().unwrap() {
                "input" => {
                    writer.write_all(input.ok_or(SessionError::InputDataRequired)?)?;
                }
                "write" => writer.write_all(&bytes(&r["b"]))?,
                "ret" => {
                    return Ok(match r["r"].as_str().unwrap() {
                        "run" => State::Running,
                        "finY" => State::Finished(MessageSent::Yes),
                        _ => State::Finished(MessageSent::No),
                    })
                }
                "validate" => {
                    let (a, b) = (Prov::new(&r["prov"][0]), Prov::new(&r["prov"][1]));
                    session.validate(&(&a).and(&b))?;
                }
                "cbdata" => {
                    let name = string(&r["name"]);
                    let a = Prov::new(&r["prov"][0]);
                    let mut got = vec![];
                    let f = |d: &[u8]| {
                        got = d.to_vec();
                        Ok(())
                    };
                    if r["must"] == true {
                        session.need_cb_data(&name, &a, f)?;
                        writer.write_all(b"+")?;
                    } else {
                        let o = session.maybe_need_cb_data(&name, &a, f)?;
                        writer.write_all(if o.is_some() { b"+" } else { b"-" })?;
                    }
                    writer.write_all(&got)?;
                }
                _ => {
                    let (a, b) = (Prov::new(&r["prov"][0]), Prov::new(&r["prov"][1]));
                    let p = (&a).and(&b);
                    request(session, &p, r, writer)?;
                }
            }
        }
        Ok(State::Running)
    }
}

macro_rules! custom {
    ($($(#[$m:meta])* $id:ident, $sel:ident, $name:literal, $prio:expr, $client:expr, $server:expr, $first:expr, $select:expr;)*) => {
        $(
            $(#[$m])*
            pub static $id: Mechanism = Mechanism::build(
                Mechname::const_new_unchecked($name.as_bytes()),
                $prio, $client, $server, $first, $select,
                |_| true,
            );
            #[allow(dead_code)]
            struct $sel;
            impl Named for $sel {
                fn mech() -> &'static Mechanism { &$id }
            }
        )*
        pub fn custom(name: &str) -> Option<Mechanism> {
            match name {
                $( $name => Some($id), )*
                _ => None,
            }
        }
    }
}

/// Wants another mechanism to be offered too, before or after it, and keeps what it learned until it is started
struct Both {
    me: bool,
    other: bool,
    chosen: bool,
}
impl Selector for Both {
    fn select(&mut self, n: &Mechname) -> Option<&'static Mechanism> {
        self.me |= n.as_str() == "X-BOTH";
        self.other |= n.as_str() == "PLAIN";
        None
    }
    fn done(&mut self) -> Option<&'static Mechanism> {
        self.chosen = true;
        (self.me && self.other).then_some(&XB)
    }
    fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
        assert!(self.me && self.other && self.chosen, "started the wrong selector");
        Ok(Box::new(Planned))
    }
}

fn planned() -> Result<Box<dyn Authentication>, SASLError> {
    Ok(Box::new(Planned))
}
fn nostart() -> Result<Box<dyn Authentication>, SASLError> {
    Err(SASLError::NoSharedMechanism)
}

custom! {
    #[cfg_attr(feature = "registry_static", linkme::distributed_slice(rsasl::registry::MECHANISMS))]
    XCF, SelXcf, "X-CF", 500, Some(planned), Some(|_| planned()), Side::Client, |_| Some(Matches::<SelXcf>::name());
    #[cfg_attr(feature = "registry_static", linkme::distributed_slice(rsasl::registry::MECHANISMS))]
    XSF, SelXsf, "X-SF", 250, Some(planned), Some(|_| planned()), Side::Server, |_| Some(Matches::<SelXsf>::name());
    #[cfg_attr(feature = "registry_static", linkme::distributed_slice(rsasl::registry::MECHANISMS))]
    XCO, SelXco, "X-CLIENTONLY", 650, Some(planned), None, Side::Client, |_| Some(Matches::<SelXco>::name());
    #[cfg_attr(feature = "registry_static", linkme::distributed_slice(rsasl::registry::MECHANISMS))]
    XSO, SelXso, "X-SERVERONLY", 800, None, Some(|_| planned()), Side::Client, |_| Some(Matches::<SelXso>::name());
    XLO, SelXlo, "X-LOW", 0, Some(planned), Some(|_| planned()), Side::Client, |_| Some(Matches::<SelXlo>::name());
    XP, SelXp, "PLAI", 350, Some(planned), Some(|_| planned()), Side::Client, |_| Some(Matches::<SelXp>::name());
    XPP, SelXpp, "PLAIN-PLUS", 450, Some(planned), Some(|_| planned()), Side::Client, |_| Some(Matches::<SelXpp>::name());
    // only with channel bindings
    XCB, SelXcb, "X-CB", 550, Some(planned), Some(|_| planned()), Side::Server, |cb| cb.then(Matches::<SelXcb>::name);
    // can not be started
    XNO, SelXno, "X-NOSTART", 520, Some(nostart), Some(|_| nostart()), Side::Client, |_| Some(Matches::<SelXno>::name());
    #[cfg_attr(feature = "registry_static", linkme::distributed_slice(rsasl::registry::MECHANISMS))]
    XB, SelXb, "X-BOTH", 480, Some(nostart), Some(|_| planned()), Side::Client,
        |_| Some(Selection::Nothing(Box::new(Both { me: false, other: false, chosen: false })));
}
