//! C62: identifiers and enumerations of the API have one text each.
use crate::cases::*;
use beacon_api_client::*;
use clap::Parser;
use reqwest::stand_in::{self, Reply};
use serde_json::json;
use std::{cell::RefCell, rc::Rc};
use vcommon::{guard, hexs, scenarios, Acc, Rng, Run};

pub fn c62() {
    let mut run = Run::new("C62", 40, 600);
    run.rule("one execution = one identifier or enumeration value taken through its text and JSON forms, or one damaged text offered to the parser; distinct = distinct texts");
    run.assume("the command line's requests are observed through the HTTP stand-in");
    scenarios(&mut run, 6000, |a, i, r| {
        state_ids(a, r);
        refused(a, r);
        block_ids(a, r);
        enums(a, r);
        if i % 40 == 0 {
            cli(a, r);
        }
    });
    for k in ["state ids", "refused texts", "block ids", "enumeration values", "command lines"] {
        run.floor(k, 50);
    }
    run.finish()
}
fn same(x: &StateId, y: &StateId) -> bool {
    match (x, y) {
        (StateId::Head, StateId::Head) | (StateId::Genesis, StateId::Genesis) => true,
        (StateId::Finalized, StateId::Finalized) | (StateId::Justified, StateId::Justified) => true,
        (StateId::Slot(a), StateId::Slot(b)) => a == b,
        (StateId::Root(a), StateId::Root(b)) => a == b,
        _ => false,
    }
}
fn state_ids(a: &mut Acc, r: &mut Rng) {
    let (id, t) = state_id(r);
    a.eval(&t, true);
    a.count("state ids", 1);
    let shown = id.to_string();
    a.check(shown == t, "id/state id text", || json!({"id": format!("{id:?}"), "text": shown, "want": t}));
    let back = guard(|| t.parse::<StateId>());
    a.check(matches!(&back, Ok(Ok(x)) if same(x, &id)), "id/state id parse", || json!({"text": t, "got": format!("{back:?}")}));
    // hex digits of either case name the same root
    if let StateId::Root(_) = id {
        let up = format!("0x{}", t[2..].to_uppercase());
        let back = guard(|| up.parse::<StateId>());
        a.check(matches!(&back, Ok(Ok(x)) if same(x, &id)), "id/state id parse upper case", || json!({"text": up, "got": format!("{back:?}")}));
    }
}
fn refused(a: &mut Acc, r: &mut Rng) {
    let t = match r.below(12) {
        0 => String::new(),
        1 => "Head".into(),
        2 => "finalised".into(),
        3 => " head".into(),
        4 => "-1".into(),
        5 => "18446744073709551616".into(),
        6 => format!("{}{}", u64::MAX, r.below(10)),
        7 => {
            // a root of the wrong size
            let n = *r.pick(&[0usize, 1, 8, 20, 31, 33, 48, 64]);
            hexs(&r.bytes(n))
        }
        8 => {
            let s = hexs(&r.bytes(32));
            s[..s.len() - 1].into()
        }
        9 => {
            let mut s = hexs(&r.bytes(32)).into_bytes();
            let i = 2 + r.idx(64);
            s[i] = *r.pick(b"gz.-xG ");
            String::from_utf8(s).unwrap()
        }
        10 => format!("{} ", r.u64()),
        _ => {
            let w = *r.pick(&["head", "genesis", "finalized", "justified"]);
            let i = r.idx(w.len());
            format!("{}{}", &w[..i], &w[i + 1..])
        }
    };
    a.eval(&t, true);
    a.count("refused texts", 1);
    let got = guard(|| t.parse::<StateId>());
    a.check(matches!(got, Ok(Err(_))), "id/state id accepts a malformed text", || json!({"text": t, "got": format!("{got:?}")}));
}
fn block_ids(a: &mut Acc, r: &mut Rng) {
    let (id, t) = block_id(r);
    a.eval(&("block", &t), true);
    a.count("block ids", 1);
    a.check(id.to_string() == t, "id/block id text", || json!({"id": format!("{id:?}"), "text": id.to_string(), "want": t}));
    let v = Vid::gen(r);
    let shown = v.make().to_string();
    a.check(shown == v.text(), "id/validator id text", || json!({"text": shown, "want": v.text()}));
}
fn enums(a: &mut Acc, r: &mut Rng) {
    macro_rules! texts {
        ($what:literal, $t:ty, $v:expr, $s:expr) => {{
            let (v, s): ($t, &str) = ($v, $s);
            a.eval(&($what, s), true);
            a.count("enumeration values", 1);
            a.check(v.to_string() == s, concat!("id/", $what, " text"), || json!({"text": v.to_string(), "want": s}));
            a.check(serde_json::to_value(&v).ok() == Some(json!(s)), concat!("id/", $what, " JSON"), || json!({"want": s}));
            let back = serde_json::from_value::<$t>(json!(s)).map(|x| x.to_string()).map_err(|e| e.to_string());
            a.check(back.as_deref() == Ok(s), concat!("id/", $what, " from JSON"), || json!({"text": s, "got": format!("{back:?}")}));
            let bad = format!("{s}{}", r.pick(&["_", "s", " "]));
            let got = serde_json::from_value::<$t>(json!(bad));
            a.check(got.is_err(), concat!("id/", $what, " accepts a malformed text"), || json!({"text": bad}));
        }};
    }
    let st = *r.pick(&STATUS);
    texts!("validator status", ValidatorStatus, st.0, st.1);
    match r.below(4) {
        0 => texts!("peer state", PeerState, PeerState::Disconnected, "disconnected"),
        1 => texts!("peer state", PeerState, PeerState::Connecting, "connecting"),
        2 => texts!("peer state", PeerState, PeerState::Connected, "connected"),
        _ => texts!("peer state", PeerState, PeerState::Disconnecting, "disconnecting"),
    }
    match r.below(2) {
        0 => texts!("direction", ConnectionOrientation, ConnectionOrientation::Inbound, "inbound"),
        _ => texts!("direction", ConnectionOrientation, ConnectionOrientation::Outbound, "outbound"),
    }
    match r.below(3) {
        0 => texts!("broadcast validation", BroadcastValidation, BroadcastValidation::Gossip, "gossip"),
        1 => texts!("broadcast validation", BroadcastValidation, BroadcastValidation::Consensus, "consensus"),
        _ => texts!("broadcast validation", BroadcastValidation, BroadcastValidation::ConsensusAndEquivocation, "consensus_and_equivocation"),
    }
    // API errors built by a server
    let code = *r.pick(&[100u16, 200, 400, 404, 500, 503, 599, 999, 99, 0, 1000, u16::MAX]);
    let msg = text(r);
    let e = ApiError::try_from((code, msg.as_str()));
    a.eval(&("error", code, &msg), true);
    match e {
        Ok(e) => {
            a.check((100..1000).contains(&code), "id/api error accepts no status code", || json!({"code": code}));
            a.check(serde_json::to_value(&e).ok() == Some(json!({"code": code, "message": msg})), "id/api error JSON", || json!({"code": code, "message": msg}));
            a.check(e.to_string() == msg, "id/api error text", || json!({"text": e.to_string(), "message": msg}));
        }
        Err(_) => {
            a.check(!(100..1000).contains(&code), "id/api error refuses a status code", || json!({"code": code}));
        }
    }
}
/// `beacon root <id>` and `beacon genesis` ask the endpoint given for the state named
fn cli(a: &mut Acc, r: &mut Rng) {
    let (_, t) = state_id(r);
    let root_cmd = r.chance(3, 4);
    let mut argv = vec!["beacon-api-client".to_string(), "--endpoint".into(), "http://localhost:5052/".into(), "beacon".into()];
    let (path, body) = if root_cmd {
        argv.extend(["root".into(), t.clone()]);
        (format!("/eth/v1/beacon/states/{t}/root"), json!({"data": {"root": hexs(&root(r))}}))
    } else {
        argv.push("genesis".into());
        (
            "/eth/v1/beacon/genesis".into(),
            json!({"data": {"genesis_time": "1", "genesis_validators_root": hexs(&root(r)), "genesis_fork_version": "0x00000000"}}),
        )
    };
    a.eval(&argv, true);
    a.count("command lines", 1);
    let seen: Rc<RefCell<Vec<String>>> = Rc::default();
    let s2 = seen.clone();
    stand_in::set(move |q| {
        s2.borrow_mut().push(format!("{} {}", q.method, q.url));
        Ok(Reply { status: 200, body: body.to_string().into_bytes() })
    });
    let got = guard(|| {
        let args = CliConfig::try_parse_from(&argv).map_err(|e| e.to_string())?;
        let c = mainnet::Client::new(url::Url::parse(&args.endpoint).map_err(|e| e.to_string())?);
        block_on(run_cli(&c, &args));
        Ok::<_, String>(())
    });
    let want = vec![format!("GET http://localhost:5052{path}")];
    a.check(matches!(got, Ok(Ok(()))) && *seen.borrow() == want, "id/command line", || {
        json!({"argv": argv, "requests": *seen.borrow(), "want": want, "result": format!("{got:?}")})
    });
    // a malformed id is refused by the parser
    let bad = CliConfig::try_parse_from(["x", "--endpoint", "http://localhost/", "beacon", "root", "0x1234"]);
    a.check(bad.is_err(), "id/command line accepts a malformed id", || json!({}));
}
