//! Parallel scenario runner and the differential judge.
use crate::{
    cfg::Cfg,
    repo::{self, Fail, Op, Out},
    rstate::RState,
    schema::{schema, Fork, Preset},
    stf::{QUIRK, QUIRKS, R},
    ty::{diff, Val},
};
pub use vcommon::{scenarios, Acc};
use vcommon::{guard, hexs, json, Value};

/// outcome of running the reference on a copy of the state
pub fn reference(pre: &RState, f: impl Fn(&mut RState) -> R) -> Result<RState, String> {
    QUIRK.set((0, 0));
    let want = reference1(pre, &f);
    let mut on = QUIRK.get().1;
    let mut alt = None;
    while on != 0 {
        QUIRK.set((on, 0));
        let x = reference1(pre, &f);
        let fired = QUIRK.get().1;
        if fired & !on == 0 {
            alt = Some((on, x));
            break;
        }
        on |= fired;
    }
    QUIRK.set((0, 0));
    ALT.set(alt);
    want
}
thread_local! {
    /// what the last reference run gives with the known defects switched on, if that makes a difference
    static ALT: std::cell::RefCell<Option<(u32, Result<RState, String>)>> = const { std::cell::RefCell::new(None) };
}
/// moves what `judge` compares with from one reference run to a later judgement
pub fn take_alt() -> Option<(u32, Result<RState, String>)> {
    ALT.take()
}
pub fn set_alt(x: Option<(u32, Result<RState, String>)>) {
    ALT.set(x);
}
fn reference1(pre: &RState, f: &impl Fn(&mut RState) -> R) -> Result<RState, String> {
    let mut s = pre.clone();
    match guard(|| f(&mut s)) {
        Ok(Ok(())) => Ok(s),
        Ok(Err(e)) => Err(e),
        Err(p) if p.starts_with("harness:") => panic!("{p}"),
        Err(p) => Err(format!("arithmetic or range: {}", p.split(" @ ").next().unwrap_or(""))),
    }
}
pub struct Case<'a> {
    pub id: &'a str,
    pub what: &'a str,
    pub fork: Fork,
    pub preset: Preset,
    pub c: &'a Cfg,
    pub pre: &'a [u8],
    pub input: Vec<u8>,
    pub note: String,
}
fn squash(e: &str) -> String {
    // numbers vary between runs: keep the words
    let mut s: String = e.chars().take(90).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    while s.contains("##") {
        s = s.replace("##", "#");
    }
    s
}
impl Case<'_> {
    pub fn detail(&self, extra: Value) -> Value {
        let mut d = json!({
            "what": self.what,
            "fork": self.fork.name(),
            "preset": format!("{:?}", self.preset),
            "note": self.note,
            "observed": extra,
            "rerun": "VERIF_ONLY=<scenario> with the same seed and tier",
        });
        if self.preset == Preset::Minimal {
            d["config"] = json!(format!("{:?}", self.c));
            d["pre_state_ssz"] = json!(hexs(self.pre));
            d["input_ssz"] = json!(hexs(&self.input));
        }
        d
    }
    /// Compares; true when both accepted and agree.
    pub fn judge(&self, a: &mut Acc, got: &Out, want: &Result<RState, String>) -> bool {
        let p = format!("{}/{}", self.what, self.fork.name());
        if let Some((on, alt)) = ALT.take() {
            let differs = match (got, want) {
                (Ok(g), Ok(w)) => *g != w.to_val().enc(),
                (g, w) => g.is_ok() != w.is_ok(),
            };
            let same = match (got, &alt) {
                (Ok(g), Ok(w)) => *g == w.to_val().enc(),
                (g, w) => g.is_err() && w.is_err(),
            };
            if differs && same {
                for (bit, name) in QUIRKS {
                    if on & bit != 0 {
                        a.violation(&format!("{p}/{name}"), self.detail(json!({"got": got.is_ok(), "expected": want.is_ok()})));
                    }
                }
                a.count("deviations explained by a known finding", 1);
                return false;
            }
        }
        match (got, want) {
            (Ok(g), Ok(w)) => {
                a.count(&format!("accepted {} {}", self.what, self.fork.name()), 1);
                let wv = w.to_val().enc();
                if *g == wv {
                    return true;
                }
                let s = schema(w.fork, w.preset);
                let t = s.ty("BeaconState");
                let mut paths = vec![];
                match t.dec(g) {
                    Ok(gv) => diff(t, &gv, &w.to_val(), "", &mut paths),
                    Err(e) => paths.push(format!("resulting state does not decode: {e}")),
                }
                paths.truncate(12);
                let first = paths.first().cloned().unwrap_or_default();
                let field: String = first
                    .trim_start_matches('.')
                    .chars()
                    .take_while(|c| c.is_ascii_alphanumeric() || *c == '_')
                    .collect();
                a.violation(
                    &format!("{p}/state/{field}"),
                    self.detail(json!({"differences (got vs expected)": paths})),
                );
                false
            }
            (Ok(_), Err(w)) => {
                a.violation(
                    &format!("{p}/accepted-invalid/{}", squash(w)),
                    self.detail(json!({"accepted although": w})),
                );
                false
            }
            (Err(g), Ok(_)) => {
                let (k, m) = match g {
                    Fail::Decode(m) => ("undecodable", m),
                    Fail::Err(m) => ("rejected-valid", m),
                    Fail::Panic(m) => ("panic-on-valid", m),
                };
                a.violation(
                    &format!("{p}/{k}/{}", squash(m)),
                    self.detail(json!({"outcome": m, "expected": "accepted"})),
                );
                false
            }
            (Err(g), Err(w)) => {
                a.count(&format!("rejected {}: {}", self.what, squash(w)), 1);
                if let Fail::Panic(_) = g {
                    a.count("rejections by panic", 1);
                }
                false
            }
        }
    }
}
pub fn run_op(c: &Case, op: Op) -> Out {
    repo::run1(c.fork, c.preset, c.pre, op, &c.c.context())
}
#[allow(dead_code)]
pub fn val_of(f: Fork, p: Preset, ty: &str, b: &[u8]) -> Result<Val, String> {
    schema(f, p).ty(ty).dec(b).map_err(|e| e.to_string())
}
