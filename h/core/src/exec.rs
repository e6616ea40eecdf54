//! C31: the executor follows the fork schedule across upgrades.
use crate::{
    cfg::{Cfg, FAR},
    chain::{self, next_block, some_focus},
    gen::{sign, Focus, Knobs, World},
    ops,
    repo::{dec, Fail},
    rstate::{obj, RState},
    run::{reference, Case},
    schema::{schema, Fork, Fork::*, Preset},
    stf::{self, R},
    ty::Val,
};
use ethereum_consensus::{
    altair, bellatrix, capella, deneb, phase0,
    ssz::prelude::serialize,
    state_transition::{self, Context, Validation},
    types,
};
use vcommon::{guard, json, scenarios, Run};

pub struct Step {
    pub fork: Fork,
    pub block: Vec<u8>,
    pub validate: bool,
    /// through `apply_block`, which always validates
    pub plain: bool,
    /// through the method named after the block's fork
    pub direct: bool,
}
pub struct After {
    pub result: Result<(), Fail>,
    pub fork: Fork,
    pub state: Vec<u8>,
}
macro_rules! executor {
    ($name:ident, $m:ident) => {
        fn $name(fork: Fork, state: &[u8], steps: &[Step], ctx: &Context) -> Result<Vec<After>, Fail> {
            use types::$m as t;
            let state: t::BeaconState = match fork {
                Phase0 => t::BeaconState::Phase0(dec::<phase0::$m::BeaconState>(state)?),
                Altair => t::BeaconState::Altair(dec::<altair::$m::BeaconState>(state)?),
                Bellatrix => t::BeaconState::Bellatrix(dec::<bellatrix::$m::BeaconState>(state)?),
                Capella => t::BeaconState::Capella(dec::<capella::$m::BeaconState>(state)?),
                Deneb => t::BeaconState::Deneb(dec::<deneb::$m::BeaconState>(state)?),
                Electra => panic!("harness: no electra executor"),
            };
            let mut ex = state_transition::$m::Executor::new(state, ctx.clone());
            let mut out = vec![];
            for s in steps {
                let v = if s.validate { Validation::Enabled } else { Validation::Disabled };
                macro_rules! go {
                    ($f:ident, $direct:ident, $var:ident) => {{
                        let b = dec::<$f::$m::SignedBeaconBlock>(&s.block)?;
                        if s.direct {
                            guard(|| ex.$direct(&b, v))
                        } else {
                            let b = t::SignedBeaconBlock::$var(b);
                            guard(|| if s.plain { ex.apply_block(&b) } else { ex.apply_block_with_validation(&b, v) })
                        }
                    }};
                }
                let r = match s.fork {
                    Phase0 => go!(phase0, apply_phase0_block_with_validation, Phase0),
                    Altair => go!(altair, apply_altair_block_with_validation, Altair),
                    Bellatrix => go!(bellatrix, apply_bellatrix_block_with_validation, Bellatrix),
                    Capella => go!(capella, apply_capella_block_with_validation, Capella),
                    Deneb => go!(deneb, apply_deneb_block_with_validation, Deneb),
                    Electra => panic!("harness: no electra executor"),
                };
                let result = match r {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => Err(Fail::Err(format!("{e:?}").chars().take(200).collect())),
                    Err(p) => Err(Fail::Panic(p)),
                };
                let (fork, state) = match &ex.state {
                    t::BeaconState::Phase0(s) => (Phase0, serialize(s).unwrap_or_default()),
                    t::BeaconState::Altair(s) => (Altair, serialize(s).unwrap_or_default()),
                    t::BeaconState::Bellatrix(s) => (Bellatrix, serialize(s).unwrap_or_default()),
                    t::BeaconState::Capella(s) => (Capella, serialize(s).unwrap_or_default()),
                    t::BeaconState::Deneb(s) => (Deneb, serialize(s).unwrap_or_default()),
                };
                out.push(After { result, fork, state });
            }
            Ok(out)
        }
    };
}
executor!(minimal, minimal);
executor!(mainnet, mainnet);

fn scheduled(slot: u64, c: &Cfg) -> Fork {
    *chain::ALL.iter().filter(|f| c.epochs[**f as usize] <= slot / c.spe).last().unwrap()
}
/// advances over every fork up to the one scheduled at `slot`
fn cross(s: &mut RState, slot: u64, c: &Cfg) -> R {
    while s.fork < scheduled(slot, c) {
        let at = c.epochs[s.fork as usize + 1] * c.spe;
        if s.slot < at {
            stf::process_slots(s, at, c)?;
        }
        *s = stf::upgrade(s, c)?;
    }
    Ok(())
}
struct Expect {
    pre: Vec<u8>,
    want: Result<RState, String>,
    alt: Option<(u32, Result<RState, String>)>,
    note: String,
    /// refused before anything may change
    untouched: bool,
}
pub fn executor(mut run: Run) -> ! {
    run.rule("chains of 1-6 signed blocks applied to one executor over a schedule with up to four forks ahead (equal fork epochs, skipped forks, blocks in and after the fork slot, blocks of other forks); a case is (start fork, preset, schedule, step, verdict, block)");
    chain::common(&mut run);
    scenarios(&mut run, 2400, |a, i, r| {
        let start = chain::ALL[i % 5];
        let preset = chain::preset(r, 40);
        let mut c = Cfg::random(preset, start, r);
        let focus = some_focus(r);
        ops::tune(&mut c, &focus, r);
        let mut k = Knobs { focus, no_pending: r.chance(2, 3), healthy: r.chance(4, 5), ..Default::default() };
        let mut w = World::new(start, preset, c, &k, r);
        // schedule what lies ahead
        let mut e = w.s.slot / w.c.spe;
        if start != Deneb && w.s.slot % w.c.spe == 0 && r.chance(1, 2) && w.c.epochs[start as usize] < e {
            // the state already stands at the next fork's slot
            a.count("states already at a fork slot", 1);
        } else {
            e += 1;
        }
        for f in start as usize + 1..5 {
            if r.chance(1, 8) {
                break;
            }
            w.c.epochs[f] = e;
            e += *r.pick(&[0, 0, 1, 1, 2, 3]);
        }
        let ctx = w.c.context();
        let first = (w.s.clone(), w.s.to_val().enc());
        let mut steps: Vec<Step> = vec![];
        let mut expect: Vec<Expect> = vec![];
        let len = r.range(1, 6);
        for step in 0..len {
            let before = w.s.clone();
            let pre = before.to_val().enc();
            let next = w.s.fork as usize + 1;
            let ahead = if next < 5 { w.c.epochs[next] } else { FAR };
            let slot = if ahead != FAR && r.chance(1, 2) {
                // at or just after the next fork's first slot, or a later fork's
                let last = (next..5).filter(|f| w.c.epochs[*f] != FAR).last().unwrap();
                let f = if r.chance(1, 3) { last } else { next };
                w.c.epochs[f] * w.c.spe + *r.pick(&[0, 0, 1, 3, w.c.spe])
            } else {
                w.s.slot + *r.pick(&[1, 1, 1, 2, 5, w.c.spe])
            };
            let slot = if slot <= w.s.slot && scheduled(slot, &w.c) <= w.s.fork { w.s.slot + 1 } else { slot };
            // blocks of forks this state cannot take
            if r.chance(1, 6) {
                let f = *r.pick(&chain::ALL[..5]);
                if f < w.s.fork {
                    let mut b = schema(f, preset).ty("SignedBeaconBlock").default();
                    b.gm("message").set("slot", Val::U64(slot));
                    steps.push(Step { fork: f, block: b.enc(), validate: r.chance(1, 2), plain: false, direct: r.chance(1, 3) });
                    expect.push(Expect { pre: pre.clone(), want: Err("block of a fork already left".into()), alt: None, note: format!("{} block on a {} state", f.name(), w.s.fork.name()), untouched: true });
                    a.count("blocks of an earlier fork", 1);
                }
            }
            let target = scheduled(slot, &w.c);
            let crossed = target as usize - w.s.fork as usize;
            if reference(&w.s, |s| cross(s, slot, &w.c)).map(|s| w.s = s).is_err() {
                return;
            }
            let _ = reference(&w.s, |_| Ok(()));
            w.fork = target;
            let last = step + 1 == len;
            k.spoil = if last { *r.pick(&[0, 30]) } else { 0 };
            k.focus = some_focus(r);
            k.focus.retain(|f| *f != Focus::Deposit && *f != Focus::Consolidation && *f != Focus::Exit);
            if slot < w.s.slot {
                return;
            }
            let pristine = w.s.clone();
            w.seen.clear();
            let Some((mut sb, mut post)) = next_block(&mut w, slot, &k, r) else { break };
            let mut adv = pristine;
            if slot > adv.slot {
                let _ = stf::process_slots(&mut adv, slot, &w.c);
            }
            if adv.to_val() != w.s.to_val() {
                a.count("chains ended: operations need another state", 1);
                break;
            }
            let sch = w.s.schema();
            let mut note = format!("step {step}: {} -> {} at slot {slot} ({crossed} forks crossed); {:?}", before.fork.name(), target.name(), w.seen.keys());
            let mut validate = true;
            if post.is_ok() && (last || crossed > 0 && r.chance(1, 6)) {
                match r.below(5) {
                    0 => {
                        sb.gm("message").set("state_root", Val::root(r.arr()));
                        sb = w.seal(sb.g("message").clone(), None);
                        post = Err("state root".into());
                        note += "; wrong state root";
                    }
                    1 => {
                        // the proposer signs for the fork before
                        let m = sb.g("message").clone();
                        let p = m.n("proposer_index") as usize;
                        let d = stf::compute_domain(stf::D_PROPOSER, &w.s.fork_prev, &w.s.gvr);
                        let sig = sign(&[w.s.v[p].pk], &stf::signing_root(&m.htr(), &d));
                        sb = obj(sch.ty("SignedBeaconBlock"), vec![m, Val::Bytes(sig.to_vec())]);
                        post = Err("signed for another fork".into());
                        if w.s.fork_prev == w.s.fork_cur {
                            return;
                        }
                        note += "; signed for the previous fork";
                        a.count("blocks signed for the previous fork", 1);
                    }
                    2 => {
                        validate = false;
                        sb.gm("message").set("state_root", Val::root(r.arr()));
                        note += "; not validated";
                        let (b, c) = (sb.g("message").clone(), w.c.clone());
                        post = reference(&w.s, |s| stf::process_block(s, &b, &c));
                    }
                    _ => {}
                }
            }
            let whole = reference(&before, |s| {
                cross(s, slot, &w.c)?;
                if s.slot == slot {
                    stf::block_in_slot(s, &sb, validate, &w.c)
                } else {
                    stf::state_transition(s, &sb, validate, &w.c)
                }
            });
            assert_eq!(whole.is_ok(), post.is_ok(), "harness: reference disagrees with itself: {:?} {:?}", whole.as_ref().err(), post.as_ref().err());
            a.count(&format!("forks crossed at once: {crossed}"), 1);
            if crossed > 0 {
                a.count(&format!("upgrades to {}", target.name()), 1);
                if slot == w.c.epochs[target as usize] * w.c.spe {
                    a.count("blocks in the fork slot", 1);
                }
            }
            steps.push(Step { fork: target, block: sb.enc(), validate, plain: validate && r.chance(1, 3), direct: r.chance(1, 3) });
            let stop = whole.is_err();
            if let Ok(s) = &whole {
                w.s = s.clone();
                w.pending.clear();
            }
            expect.push(Expect { pre, want: whole, alt: crate::run::take_alt(), note, untouched: false });
            if stop {
                break;
            }
        }
        // a block of a fork not yet begun at its slot, ending the chain
        let good = expect.last().is_none_or(|e| e.want.is_ok());
        let next = w.s.fork as usize + 1;
        if good && next < 5 && r.chance(1, 2) {
            let f = chain::ALL[r.range(next as u64, 4) as usize];
            let slot = w.s.slot + 1;
            if scheduled(slot, &w.c) < f {
                let mut b = schema(f, preset).ty("SignedBeaconBlock").default();
                b.gm("message").set("slot", Val::U64(slot));
                a.count(if w.c.epochs[f as usize] == FAR { "blocks of a fork never scheduled" } else { "blocks of a fork before its start" }, 1);
                steps.push(Step { fork: f, block: b.enc(), validate: r.chance(1, 2), plain: false, direct: r.chance(1, 3) });
                expect.push(Expect { pre: w.s.to_val().enc(), want: Err("fork not begun".into()), alt: None, note: format!("{} block on a {} state", f.name(), w.s.fork.name()), untouched: false });
            }
        }
        let d = if preset == Preset::Minimal { minimal } else { mainnet };
        let got = match d(start, &first.1, &steps, &ctx) {
            Ok(g) => g,
            Err(e) => panic!("harness: generated input refused: {e:?}"),
        };
        for (j, ((g, x), s)) in got.iter().zip(&expect).zip(&steps).enumerate() {
            let case = Case { id: "C31", what: "executor", fork: s.fork, preset, c: &w.c, pre: &x.pre, input: s.block.clone(), note: x.note.clone() };
            let panicked = matches!(g.result, Err(Fail::Panic(_)));
            if panicked && x.want.is_err() && (x.untouched || matches!(&x.want, Err(e) if e == "fork not begun")) {
                a.violation(&format!("executor/{}/panic on a block of another fork", s.fork.name()), case.detail(json!(format!("{:?}", g.result))));
                break;
            }
            if x.untouched && (g.fork != w_fork(&expect, j, start) || g.state != x.pre) {
                a.violation(&format!("executor/{}/state changed by a refused block", s.fork.name()), case.detail(json!(format!("state is now of {}", g.fork.name()))));
                break;
            }
            if let Ok(want) = &x.want {
                if g.result.is_ok() && g.fork != want.fork {
                    a.violation(&format!("executor/{}/fork of the state", s.fork.name()), case.detail(json!({"got": g.fork.name(), "expected": want.fork.name()})));
                    break;
                }
            }
            let out = g.result.clone().map(|_| g.state.clone());
            crate::run::set_alt(x.alt.clone());
            let ok = case.judge(a, &out, &x.want);
            a.eval(&(start, preset as u8, w.c.epochs, j, ok, &s.block), true);
            if x.want.is_ok() && !ok {
                break;
            }
        }
        if i < 6 {
            a.sample(|| json!({"start": start.name(), "slot": first.0.slot, "schedule": format!("{:?}", w.c.epochs), "steps": expect.iter().map(|e| e.note.clone()).collect::<Vec<_>>()}));
        }
    });
    for f in &chain::ALL[1..5] {
        run.floor(&format!("upgrades to {}", f.name()), 50);
    }
    for n in ["forks crossed at once: 2", "forks crossed at once: 3", "blocks in the fork slot", "blocks of an earlier fork", "blocks of a fork never scheduled", "blocks of a fork before its start", "blocks signed for the previous fork", "states already at a fork slot"] {
        run.floor(n, 10);
    }
    run.finish()
}
/// fork of the state before step `j`
fn w_fork(x: &[Expect], j: usize, start: Fork) -> Fork {
    x[..j].iter().rev().find_map(|e| e.want.as_ref().ok().map(|s| s.fork)).unwrap_or(start)
}
