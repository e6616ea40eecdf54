//! C01: clock arithmetic against exact integer arithmetic. C02: the slot stream under virtual time.
use ethereum_consensus::clock::{self, Clock, TimeProvider};
use std::{
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, SystemTime, UNIX_EPOCH},
};
use vcommon::*;

const NS: u128 = 1_000_000_000;

#[derive(Clone)]
struct Fixed(Arc<Mutex<u128>>);
impl TimeProvider for Fixed {
    fn get_current_time(&self) -> u128 {
        *self.0.lock().unwrap()
    }
}

struct Case {
    g: u64,
    s: u64,
    spe: u64,
    t: u128,
}

fn gen_case(rng: &mut Rng) -> Case {
    let g = match rng.below(6) {
        0 => 0,
        1 => 1606824023,
        2 => rng.below(1 << 31),
        3 => rng.below(18_000_000_000),
        4 => rng.below(1000),
        _ => 1_600_000_000 + rng.below(200_000_000),
    };
    let s = match rng.below(6) {
        0 => 12,
        1 => 6,
        2 => 1,
        3 => 1 + rng.below(60),
        4 => 1 + rng.below(18_000_000_000),
        _ => 1 + rng.below(100_000),
    };
    let spe = match rng.below(4) {
        0 => 32,
        1 => 8,
        2 => 1,
        _ => 1 + rng.edgy().min(u64::MAX - 1),
    };
    let gn = g as u128 * NS;
    let sn = s as u128 * NS;
    // times: on, just before, just after slot boundaries; before genesis; far
    let t = match rng.below(8) {
        0 => gn,
        1 => gn.saturating_sub(1 + rng.below(3) as u128),
        2 => rng.u64() as u128 % (gn + 1),
        3 => gn + rng.u64() as u128,
        4 => gn + (rng.u64() as u128) * (1 + rng.below(1 << 20) as u128),
        _ => {
            let k = match rng.below(3) {
                0 => rng.below(100),
                1 => rng.below(1 << 24),
                _ => rng.edgy() >> 16,
            } as u128;
            let base = gn + k * sn;
            match rng.below(5) {
                0 => base,
                1 => base.saturating_sub(1),
                2 => base + 1,
                3 => base + sn - 1,
                _ => base + (rng.u64() as u128 % sn),
            }
        }
    };
    Case { g, s, spe, t }
}

pub fn arithmetic(mut r: Run) {
    r.rule("a clock (genesis, slot length, epoch length) and an instant, distinct by those four values; \
            trivial when the instant is exactly genesis");
    r.floor("instants before genesis", 100);
    r.floor("instants on a slot boundary", 100);
    r.floor("instants one ns before a slot boundary", 100);
    named_clocks(&mut r);
    let mut rng = r.rng.clone();
    let cell = Arc::new(Mutex::new(0u128));
    while r.time_left() && (r.evals() < 2_000_000 || !r.quick()) {
        let c = gen_case(&mut rng);
        one(&mut r, &mut rng, &c, &cell);
    }
    r.finish()
}

fn one(r: &mut Run, rng: &mut Rng, c: &Case, cell: &Arc<Mutex<u128>>) {
    let (gn, sn) = (c.g as u128 * NS, c.s as u128 * NS);
    *cell.lock().unwrap() = c.t;
    let clk = Clock::new(c.g, c.s, c.spe, Fixed(cell.clone()));
    // the clone shares everything with the original
    let clk = if rng.chance(1, 4) { clk.clone() } else { clk };
    let expect_slot = if c.t < gn { None } else { Some((c.t - gn) / sn) };
    if let Some(x) = expect_slot {
        if x > u64::MAX as u128 - 2 {
            return; // outside the representable domain
        }
    }
    r.eval(&(c.g, c.s, c.spe, c.t), c.t != gn);
    if expect_slot.is_none() {
        r.count("instants before genesis", 1);
    } else if (c.t - gn) % sn == 0 {
        r.count("instants on a slot boundary", 1);
    } else if (c.t - gn) % sn == sn - 1 {
        r.count("instants one ns before a slot boundary", 1);
    }
    let ctx = |what: &str, got: String, want: String| {
        json!({"genesis_time": c.g, "seconds_per_slot": c.s, "slots_per_epoch": c.spe,
               "time_ns": c.t.to_string(), "operation": what, "observed": got, "expected": want})
    };
    macro_rules! cmp {
        ($what:expr, $got:expr, $want:expr) => {{
            let want = $want;
            let got = guard(|| $got);
            let ok = matches!(&got, Ok(g) if *g == want);
            r.check(ok, $what, || ctx($what, format!("{got:?}"), format!("{want:?}")));
        }};
    }
    let es = expect_slot.map(|x| x as u64);
    cmp!("before_genesis", clk.before_genesis(), c.t < gn);
    cmp!("current_slot", clk.current_slot(), es);
    cmp!("slot_at_time", clk.slot_at_time(c.t), es);
    cmp!("current_epoch", clk.current_epoch(), es.map(|x| x / c.spe));
    cmp!("convert_timestamp_nanos_to_slot", clock::convert_timestamp_nanos_to_slot(c.t, gn, sn), es);
    // second-precision conversion
    let secs = c.t / NS;
    if let Ok(secs) = u64::try_from(secs) {
        let want = secs.checked_sub(c.g).map(|d| d / c.s);
        cmp!("convert_timestamp_to_slot", clock::convert_timestamp_to_slot(secs, c.g, c.s), want);
    }
    // next slot
    let next = match es {
        None => gn,
        Some(x) => gn + (x as u128 + 1) * sn,
    };
    if let Ok(d) = u64::try_from(next - c.t) {
        cmp!("duration_until_next_slot", clk.duration_until_next_slot(), Duration::from_nanos(d));
    }
    // slots around the instant and elsewhere
    let mut slots = vec![0, 1, rng.below(1000), rng.edgy()];
    if let Some(x) = es {
        slots.extend([x.saturating_sub(1), x, x + 1, x.saturating_add(rng.below(1 << 20))]);
    }
    for slot in slots {
        cmp!("epoch_for", clk.epoch_for(slot), slot / c.spe);
        let start = gn + slot as u128 * sn;
        let until = start.saturating_sub(c.t);
        if let Ok(d) = u64::try_from(until) {
            cmp!("duration_until_slot", clk.duration_until_slot(slot), Duration::from_nanos(d));
            r.count("durations compared", 1);
        }
        if let Ok(ts) = u64::try_from(start / NS) {
            cmp!("timestamp_at_slot", clk.timestamp_at_slot(slot), ts);
            cmp!("convert_slot_to_timestamp", clock::convert_slot_to_timestamp(slot, sn, gn), ts);
            // round trips
            cmp!("slot start maps back", clk.slot_at_time(ts as u128 * NS), Some(slot));
            r.count("slot timestamps compared", 1);
        }
    }
    if r.evals() % 50_000 == 3 {
        r.sample(json!({"genesis": c.g, "sps": c.s, "spe": c.spe, "t": c.t.to_string(), "slot": es}));
    }
}

/// the clocks shipped for public networks, against independently recorded network facts
fn named_clocks(r: &mut Run) {
    let table: [(&str, Clock<clock::SystemTimeProvider>, u64); 4] = [
        ("mainnet", clock::for_mainnet(), 1606824023),
        ("sepolia", clock::for_sepolia(), 1655733600),
        ("goerli", clock::for_goerli(), 1616508000),
        ("holesky", clock::for_holesky(), 1695902400),
    ];
    for (name, clk, g) in &table {
        for slot in [0u64, 1, 31, 32, 33, 1_000_000, 8_626_176] {
            let start = (*g as u128 + slot as u128 * 12) * NS;
            let obs = guard(|| {
                (
                    clk.timestamp_at_slot(slot),
                    clk.slot_at_time(start),
                    clk.slot_at_time(start + 12 * NS - 1),
                    clk.slot_at_time((*g as u128) * NS - 1),
                    clk.epoch_for(slot),
                )
            });
            let want = (g + slot * 12, Some(slot), Some(slot), None, slot / 32);
            r.eval(&(name, slot), true);
            r.check(obs == Ok(want), "named network clock", || {
                json!({"network": name, "slot": slot, "observed": format!("{obs:?}"), "expected": format!("{want:?}")})
            });
        }
        // against the wall clock, sandwiched between two readings
        let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos();
        for _ in 0..50 {
            let a = now();
            let slot = clk.current_slot();
            let epoch = clk.current_epoch();
            let until = clk.duration_until_next_slot().as_nanos();
            let b = now();
            let at = |t: u128| ((t - *g as u128 * NS) / (12 * NS)) as u64;
            if b < a || a < *g as u128 * NS || at(a) != at(b) {
                continue; // the reading straddled a boundary or the clock stepped
            }
            let s = at(a);
            let next = (*g as u128 + (s as u128 + 1) * 12) * NS;
            let ok = slot == Some(s) && epoch == Some(s / 32) && until <= next - a && until >= next - b;
            r.eval(&("wall", name, s), true);
            r.check(ok, "wall clock reading", || {
                json!({"network": name, "slot": slot, "epoch": epoch, "until_next_ns": until.to_string(), "expected_slot": s})
            });
        }
    }
    for _ in 0..50 {
        let a = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        let target = a.as_secs() + r.rng.below(100_000) + 5;
        let d = clock::duration_until(target);
        let past = clock::duration_until(a.as_secs() - 10);
        let e = clock::duration_since_unix_epoch();
        let n = clock::get_current_unix_time_in_nanos();
        let b = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        if b < a || b.as_secs() > a.as_secs() + 2 {
            continue;
        }
        let t = Duration::from_secs(target);
        let ok = d <= t - a && d >= t - b && past.is_zero() && e >= a && e <= b && n >= a.as_nanos() && n <= b.as_nanos();
        r.check(ok, "duration until a unix time", || {
            json!({"target": target, "observed": format!("{d:?}"), "now": format!("{a:?}"), "past": format!("{past:?}")})
        });
    }
}

// ------------------------------------------------------------------ slot stream
/// wall time = base + virtual time elapsed + a small advance on every reading
struct Virtual {
    base: u128,
    start: tokio::time::Instant,
    per_read: u64,
    advanced: AtomicU64,
}
impl Virtual {
    fn peek(&self) -> u128 {
        self.base + self.start.elapsed().as_nanos() + self.advanced.load(Ordering::SeqCst) as u128
    }
}
#[derive(Clone)]
struct Shared(Arc<Virtual>);
impl TimeProvider for Shared {
    fn get_current_time(&self) -> u128 {
        let v = self.0.peek();
        self.0.advanced.fetch_add(self.0.per_read, Ordering::SeqCst);
        v
    }
}

pub fn stream(mut r: Run) {
    r.rule("one run of the slot stream under virtual time, distinct by clock parameters, start instant and \
            the consumer's delay schedule; trivial when fewer than three slots were observed");
    r.assume("the time source never steps backwards and the timer never fires early (tokio's documented guarantee)");
    r.floor("slots yielded to a prompt consumer", 500);
    r.floor("slots yielded to a late consumer", 100);
    r.floor("streams created before genesis", 20);
    r.floor("time readings that straddled a slot boundary", 5);
    r.floor("polls just before a slot ended, with readings that cost time", 200);
    let mut rng = r.rng.clone();
    let max = if r.quick() { 120_000 } else { u64::MAX };
    while r.time_left() && r.evals() < max {
        one_stream(&mut r, &mut rng);
    }
    r.finish()
}

fn one_stream(r: &mut Run, rng: &mut Rng) {
    use std::future::Future;
    use tokio_stream::StreamExt;
    let s = match rng.below(12) {
        0 => 1 + rng.below(120),
        1 => 1 + rng.below(50_000),
        _ => *rng.pick(&[1u64, 2, 5, 6, 12, 12, 30]),
    };
    let sn = s as u128 * NS;
    let g = *rng.pick(&[0u64, 10, 1606824023, 7, 1 << 33]);
    let gn = g as u128 * NS;
    let before = g > 0 && rng.chance(1, 4);
    let base = if before {
        let back = 1 + rng.below((g as u128 * NS).min(100 * NS) as u64);
        gn - back as u128
    } else {
        let k = match rng.below(6) {
            0 => rng.below(1 << 20),
            1 => (1 << rng.below(34)) + rng.below(3),
            2 => (1 << rng.below(34)) - 1,
            3 => 0,
            _ => rng.below(1_000),
        } as u128;
        let phase = match rng.below(6) {
            0 => 0,
            1 => sn - 1,
            2 => sn - 1 - rng.below(5_000_000) as u128,
            3 => rng.below(5_000_000) as u128,
            _ => rng.u64() as u128 % sn,
        };
        gn + k * sn + phase
    };
    // most runs: frozen readings; some: every reading costs time, as it really does
    let per_read = *rng.pick(&[0, 0, 0, 1, 1000, 300_000, 999_983, 2_999_999]);
    // a long stream now and then, long stalls in some
    let n = if rng.chance(1, 150) { 100 + rng.below(400) } else { 3 + rng.below(10) } as usize;
    let stall = *rng.pick(&[4u64, 4, 4, 40, 1000]);
    // consumer schedule: nanoseconds waited before each poll
    let delays: Vec<u64> = (0..n)
        .map(|_| match rng.below(6) {
            0 => rng.below(sn as u64),
            1 => rng.below(stall * sn as u64),
            2 => rng.below(3_000_000),
            _ => 0,
        })
        .collect();
    // some polls are aimed just short of the end of the slot in progress
    let edges: Vec<Option<u64>> = (0..n)
        .map(|i| {
            (delays[i] > 0 && rng.chance(1, 3)).then(|| if rng.chance(1, 2) { 0 } else { rng.below(4 * per_read + 1) })
        })
        .collect();
    // some runs poll the stream by hand first, dropping the pending wait, as select! does
    let pokes: Vec<bool> = (0..n).map(|_| rng.chance(1, 4)).collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let key = (s, g, base, per_read, delays.clone(), edges.clone(), pokes.clone());
    let out = guard(|| {
        rt.block_on(async {
            let v = Arc::new(Virtual {
                base,
                start: tokio::time::Instant::now(),
                per_read,
                advanced: AtomicU64::new(0),
            });
            let clk = Clock::new(g, s, 32, Shared(v.clone()));
            let c0 = v.peek();
            let mut st = Box::pin(clk.into_stream());
            let c1 = v.peek();
            let mut log = vec![];
            for i in 0..n {
                if delays[i] > 0 {
                    tokio::time::sleep(Duration::from_nanos(delays[i])).await;
                }
                if let Some(lead) = edges[i] {
                    let now = v.peek();
                    let left = if now < gn { gn - now } else { sn - (now - gn) % sn };
                    // the timer counts whole milliseconds
                    let ms = left.saturating_sub(lead as u128 + 1) / 1_000_000;
                    tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                }
                let p = v.peek();
                let mut item = None;
                if pokes[i] {
                    let mut nx = Box::pin(st.next());
                    let ready = std::future::poll_fn(|cx| {
                        std::task::Poll::Ready(match nx.as_mut().poll(cx) {
                            std::task::Poll::Ready(x) => Some(x),
                            _ => None,
                        })
                    })
                    .await;
                    item = ready;
                }
                let item = match item {
                    Some(x) => x,
                    None => {
                        match tokio::time::timeout(Duration::from_secs(4_000_000), st.next()).await {
                            Ok(x) => x,
                            Err(_) => {
                                log.push((p, v.peek(), Err("no slot within a bounded wait")));
                                break;
                            }
                        }
                    }
                };
                let y = v.peek();
                match item {
                    Some(slot) => log.push((p, y, Ok(slot))),
                    None => {
                        log.push((p, y, Err("stream ended")));
                        break;
                    }
                }
            }
            (c0, c1, log)
        })
    });
    let detail = |what: &str, log: String| {
        json!({"what": what, "genesis": g, "seconds_per_slot": s, "start_ns": base.to_string(),
               "ns_per_reading": per_read, "delays": delays, "ahead_of_slot_end": edges, "history(poll_ns,yield_ns,slot)": log})
    };
    let (c0, c1, log) = match out {
        Ok(x) => x,
        Err(e) => {
            r.eval(&key, true);
            r.violation("stream panicked", detail(&e, String::new()));
            return;
        }
    };
    r.eval(&key, log.len() >= 3);
    if before {
        r.count("streams created before genesis", 1);
    }
    let slot_at = |t: u128| (t >= gn).then(|| ((t - gn) / sn) as u64);
    let start_of = |x: u64| gn + x as u128 * sn;
    let ls = format!("{log:?}");
    let slack = 5_000_000 + 8 * per_read as u128; // timer granularity plus the cost of the readings
    let mut prev: Option<u64> = None;
    for (i, (p, y, item)) in log.iter().enumerate() {
        let slot = match item {
            Ok(x) => *x,
            Err(e) => {
                r.violation("stream stopped", detail(e, ls.clone()));
                return;
            }
        };
        if slot_at(*p) != slot_at(*y) && per_read > 0 && (start_of(slot).saturating_sub(*p)) < 8 * per_read as u128 {
            r.count("time readings that straddled a slot boundary", 1);
        }
        if per_read > 0 && edges[i].is_some() && slot_at(*p) != slot_at(*p + 4 * per_read as u128) {
            r.count("polls just before a slot ended, with readings that cost time", 1);
        }
        if y < &start_of(slot) {
            r.violation("slot yielded before it started", detail(&format!("item {i}"), ls.clone()));
            return;
        }
        if i == 0 && slot_at(c1).is_some() {
            // created after genesis: the slot in progress at creation
            let ok = slot_at(c0).map_or(true, |lo| slot >= lo) && Some(slot) <= slot_at(c1);
            if !ok && !(slot_at(c0).is_none()) {
                r.violation("first slot is not the one in progress at creation", detail(&format!("item {i}"), ls.clone()));
                return;
            }
        } else {
            let target = prev.map_or(0, |x| x + 1);
            if slot < target {
                r.violation("slots not strictly increasing", detail(&format!("item {i}"), ls.clone()));
                return;
            }
            if slot_at(*p).map_or(true, |c| c < target) {
                // the consumer asked before the next slot began
                r.count("slots yielded to a prompt consumer", 1);
                if slot != target {
                    r.violation("a slot was skipped for a prompt consumer", detail(&format!("item {i}"), ls.clone()));
                    return;
                }
                if *y > start_of(slot) + slack {
                    r.violation("slot yielded late", detail(&format!("item {i}"), ls.clone()));
                    return;
                }
            } else {
                r.count("slots yielded to a late consumer", 1);
                // a late consumer gets the slot in progress, without waiting
                if Some(slot) < slot_at(*p) || *y > *p + slack {
                    r.violation("late consumer got a stale slot", detail(&format!("item {i}"), ls.clone()));
                    return;
                }
            }
        }
        prev = Some(slot);
    }
    if r.evals() % 3000 == 1 {
        r.sample(json!({"sps": s, "start_ns": base.to_string(), "delays": delays, "history": ls}));
    }
}
