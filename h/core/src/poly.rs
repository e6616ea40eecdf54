//! C13: the fork-spanning types agree with the fork's own types in everything they show and let change.
use crate::{
    repo::Fail,
    schema::{Fork, *},
    ty::{Ty, Val},
};
use serde_json::Value as Json;
use vcommon::{guard, hexs, json, scenarios, Rng, Run};

/// accessor answer: root of the value, and the fork a nested view names
pub type Seen = Option<([u8; 32], Option<Fork>)>;
pub struct View {
    pub what: &'static str,
    pub version: Fork,
    pub root: [u8; 32],
    pub reads: Vec<Seen>,
    pub inner: Vec<(Fork, Option<Vec<u8>>)>,
    pub inner_mut: Option<Vec<(Fork, Option<Vec<u8>>)>>,
}
#[derive(Default)]
pub struct Report {
    pub views: Vec<View>,
    pub enc: Vec<u8>,
    pub json: Json,
    pub text: String,
    pub back: Vec<Option<(Fork, Vec<u8>)>>,
    pub writes: Vec<(&'static str, usize, bool, Vec<u8>)>,
}
pub struct Poly {
    pub name: &'static str,
    pub preset: Preset,
    pub forks: &'static [Fork],
    pub fields: &'static [&'static str],
    pub run: fn(Fork, &[u8], &[Option<Vec<u8>>]) -> Report,
    pub doc: fn(Json) -> Option<(Fork, Vec<u8>)>,
}
pub fn must<T>(r: Result<T, Fail>) -> T {
    r.unwrap_or_else(|e| panic!("valid encoding refused: {e:?}"))
}
pub fn rt<T: AsRef<[u8]>, E: std::fmt::Debug>(r: Result<T, E>) -> [u8; 32] {
    r.unwrap_or_else(|e| panic!("no root: {e:?}")).as_ref().try_into().unwrap()
}
pub fn fork_of(f: ethereum_consensus::Fork) -> Fork {
    use ethereum_consensus::Fork as F;
    match f {
        F::Phase0 => Phase0,
        F::Altair => Altair,
        F::Bellatrix => Bellatrix,
        F::Capella => Capella,
        F::Deneb => Deneb,
        _ => Electra,
    }
}
fn field<'a>(t: &'a Ty, v: &'a Val, n: &str) -> Option<(&'a Ty, &'a Val)> {
    t.cont().has(n).then(|| (t.cont().ty(n), v.g(n)))
}
pub fn poly(mut run: Run) -> ! {
    run.rule("one value wrapped in its fork-spanning type and read, changed, rendered and read back through every accessor of the value and of its borrowed views; a case is (type, fork, preset, value)");
    let all = crate::poly_gen::all();
    let cases: Vec<(usize, Fork)> = all.iter().enumerate().flat_map(|(i, p)| p.forks.iter().map(move |f| (i, *f))).collect();
    scenarios(&mut run, 2400, |a, i, r: &mut Rng| {
        let (k, f) = cases[i as usize % cases.len()];
        let p = &all[k];
        // mainnet states are large: fewer of them
        let big = p.name == "BeaconState" && p.preset == Preset::Mainnet;
        if big && i as usize / cases.len() > 1 + (i as usize / 20000) {
            return;
        }
        let s = schema(f, p.preset);
        let t = s.ty(p.name);
        let v = t.rand(r, *r.clone().pick(&[1, 2, 3]));
        let b = t.enc(&v);
        let mut news: Vec<Option<(Val, Vec<u8>)>> = vec![];
        for n in p.fields {
            let picked = !big || r.chance(1, 12);
            news.push(field(t, &v, n).map(|(ft, fv)| {
                let x = if picked { ft.rand(r, 2) } else { fv.clone() };
                let e = ft.enc(&x);
                (x, e)
            }));
        }
        let enc: Vec<Option<Vec<u8>>> = news.iter().map(|x| x.as_ref().map(|x| x.1.clone())).collect();
        let tag = |w: &str| format!("{w} {}/{}", f.name(), p.name);
        let info = |x: Json| json!({"preset": format!("{:?}", p.preset), "encoding": hexs(&b[..b.len().min(20000)]), "observed": x});
        let rep = match guard(|| (p.run)(f, &b, &enc)) {
            Ok(x) => x,
            Err(e) => return a.violation(&tag("crash"), info(json!(e))),
        };
        let root = t.htr(&v);
        a.check(rep.enc == b, &tag("encoding"), || info(json!(hexs(&rep.enc[..rep.enc.len().min(2000)]))));
        let j = t.json(&v);
        a.check(rep.json == j, &tag("document"), || info(rep.json.clone()));
        a.check(serde_json::from_str::<Json>(&rep.text).ok().as_ref() == Some(&j), &tag("document text"), || info(json!(null)));
        for (w, x) in ["value", "text", "reader"].iter().zip(&rep.back) {
            a.check(x.as_ref() == Some(&(f, b.clone())), &tag(&format!("reading back from {w}")), || info(json!(x.as_ref().map(|x| x.0.name()))));
            a.count("documents read back", 1);
        }
        for w in &rep.views {
            let tag = |x: &str| tag(&format!("{} {x}", w.what));
            a.check(w.version == f, &tag("version"), || info(json!(w.version.name())));
            a.check(w.root == root, &tag("root"), || info(json!(hexs(&w.root))));
            for l in [Some(&w.inner), w.inner_mut.as_ref()].into_iter().flatten() {
                for (g, x) in l {
                    a.check(x.as_deref() == (*g == f).then_some(&b[..]), &tag("inner value"), || info(json!([g.name(), x.is_some()])));
                }
            }
            for (n, got) in p.fields.iter().zip(&w.reads) {
                let want = field(t, &v, n).map(|(ft, fv)| ft.htr(fv));
                a.check(got.map(|g| g.0) == want, &tag(&format!("field {n}")), || info(json!({"present": got.is_some(), "expected present": want.is_some()})));
                if let Some((_, Some(g))) = got {
                    a.check(*g == f, &tag(&format!("field {n} version")), || info(json!(g.name())));
                }
                a.count("fields read", 1);
            }
        }
        for (w, k, wrote, after) in &rep.writes {
            let n = p.fields[*k];
            let mut x = v.clone();
            let want = if let Some((nv, _)) = &news[*k] {
                x.set(n, nv.clone());
                true
            } else {
                false
            };
            let tag = tag(&format!("{w} change of {n}"));
            a.check(*wrote == want, &tag, || info(json!({"changeable": wrote, "expected": want})));
            a.check(*after == t.enc(&x), &tag, || info(json!({"after": hexs(&after[..after.len().min(2000)])})));
            a.count("fields changed", 1);
        }
        // a document that belongs to no fork, or to another one
        if !big {
            let mut d = j.clone();
            let o = d.as_object_mut().unwrap();
            let keys: Vec<String> = o.keys().cloned().collect();
            let gone = r.pick(&keys).clone();
            o.remove(&gone);
            // still complete for an earlier fork?
            let want = p.forks.iter().rev().find_map(|g| {
                let gt = schema(*g, p.preset).ty(p.name);
                gt.cont().fields.iter().all(|x| d.get(x.json).is_some()).then_some(*g)
            });
            if want.is_none() {
                let got = guard(|| (p.doc)(d));
                a.check(matches!(got, Ok(None)), &tag("incomplete document accepted or crashes"), || info(json!({"without": gone, "got": got.as_ref().map(|x| x.as_ref().map(|y| y.0.name()))})));
                a.count("documents refused", 1);
            }
        }
        a.count(&format!("values {}", p.name), 1);
        a.eval(&(p.name, f, p.preset as u8, &b), true);
        if i < 3 {
            a.sample(|| json!({"type": p.name, "fork": f.name(), "accessors": p.fields.len(), "bytes": b.len()}));
        }
    });
    for p in &all {
        run.floor(&format!("values {}", p.name), 8);
    }
    run.floor("fields read", 5000);
    run.floor("fields changed", 3000);
    run.floor("documents refused", 200);
    run.finish()
}
