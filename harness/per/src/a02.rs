//! A02: ownership by proposal and acceptance, against a reference automaton, for every contract with the scheme.
use crate::city::*;
use crate::common::*;
const P: &str = "A02";
const MAX_TTL: u64 = 1_209_600;
pub fn ownership(r: &mut Rng, m: &mut Mon) {
    let mut k = build(r);
    let subj: Vec<String> = k.owned(r).into_iter().map(|x| x.0).collect();
    let mut people: Vec<String> = (0..4).map(|i| format!("wasm1cand{i}")).collect();
    people.extend(k.own.values().cloned());
    people.push("wasm1thief".into());
    people.push(k.sink.clone());
    people.sort();
    people.dedup();
    for p in &people {
        k.w.c.fund(p, &k.w.toks[0].id, 1 << 80);
    }
    // concentrate on a few contracts so that histories get long
    let mut focus: Vec<usize> = (0..subj.len()).collect();
    r.shuffle(&mut focus);
    focus.truncate(1 + r.idx(3));
    let steps = r.range(10, 60);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let s = *r.pick(&focus);
        let a = subj[s].clone();
        let now = k.w.c.now();
        let owner = k.owner(&a);
        let pend = k.pend.get(&a).cloned();
        match r.weighted(&[6, 3, 8, 4]) {
            0 => {
                let who = if r.chance(2, 3) { owner.clone() } else { r.pick(&people).clone() };
                let to = match r.below(12) {
                    0 => owner.clone(),
                    1 => "WASM1BAD".to_string(),
                    2 => String::new(),
                    3 => a.clone(),
                    _ => r.pick(&people).clone(),
                };
                let ttl = match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => MAX_TTL,
                    3 => MAX_TTL + 1,
                    4 => u64::MAX - r.below(2),
                    _ => r.log(1, MAX_TTL as u128) as u64,
                };
                m.step(|| format!("{who} proposes {to} for {ttl} s as owner of {a} (owner {owner})"));
                let c = &k.w.c;
                let res = attempt(c, m, P, || c.exec(&who, &a, &json!({"propose_new_owner": {"owner": to, "expires_in": ttl}}), &[]));
                if who != owner {
                    must_refuse(m, P, "proposal-by-stranger", &res);
                } else if to == owner || to.is_empty() || to.starts_with('W') {
                    must_refuse(m, P, "senseless-proposal", &res);
                } else if ttl > MAX_TTL {
                    must_refuse(m, P, "eternal-proposal", &res);
                } else if must_accept(m, P, "proposal", &res) {
                    m.seen(P, (s, 0, pend.is_some(), ttl.min(2)));
                    k.pend.insert(a.clone(), (to, now + ttl));
                }
            }
            1 => {
                let who = match r.below(4) {
                    0 => r.pick(&people).clone(),
                    1 if pend.is_some() => pend.clone().unwrap().0,
                    _ => owner.clone(),
                };
                m.step(|| format!("{who} drops the proposal of {a} (owner {owner}, pending {pend:?})"));
                let c = &k.w.c;
                let res = attempt(c, m, P, || c.exec(&who, &a, &json!({"drop_ownership_proposal": {}}), &[]));
                if who != owner {
                    must_refuse(m, P, "drop-by-stranger", &res);
                } else if pend.is_none() || must_accept(m, P, "drop", &res) {
                    m.seen(P, (s, 1, pend.is_some(), 0));
                    k.pend.remove(&a);
                }
            }
            2 => {
                let who = match (&pend, r.below(5)) {
                    (Some(p), 0..=2) => p.0.clone(),
                    (_, 3) => owner.clone(),
                    _ => r.pick(&people).clone(),
                };
                m.step(|| format!("{who} claims {a} at {now} (owner {owner}, pending {pend:?})"));
                let c = &k.w.c;
                let res = attempt(c, m, P, || c.exec(&who, &a, &json!({"claim_ownership": {}}), &[]));
                match &pend {
                    None => must_refuse(m, P, "claim-without-proposal", &res),
                    Some((p, _)) if *p != who => must_refuse(m, P, "claim-by-another", &res),
                    Some((_, t)) if now > *t => {
                        must_refuse(m, P, "late-claim", &res);
                        m.seen(P, (s, 2, false, (now - t).min(2)));
                    }
                    Some((_, t)) => {
                        if must_accept(m, P, "claim", &res) {
                            m.seen(P, (s, 2, true, (t - now).min(2)));
                            m.sample(P, || format!("{a}: from {owner} to {who}, {} s before the end", t - now));
                            k.own.insert(a.clone(), who);
                            k.pend.remove(&a);
                        }
                    }
                }
            }
            _ => {
                let dt = match (&pend, r.below(4)) {
                    (Some((_, t)), 0) if *t > now => t - now,
                    (Some((_, t)), 1) if *t >= now => t - now + 1,
                    (_, 2) => r.log(1, 2_000_000) as u64,
                    _ => r.range(1, 1000),
                };
                m.step(|| format!("{dt} s pass"));
                k.w.c.advance(1 + dt / 5, dt);
            }
        }
        // who is the owner, and who has the owner's powers
        for s in 0..subj.len() {
            if !(focus.contains(&s) || r.chance(1, 6)) {
                continue;
            }
            let a = &subj[s];
            let owner = k.owner(a);
            let q: serde_json::Value = k.w.c.query(a, &json!({"config": {}})).expect("config");
            m.check(P, "reported-owner", q["owner"] == owner, || format!("{a} reports owner {}, expected {owner}", q["owner"]));
            if r.chance(1, 3) {
                let (_, msg, funds) = k.owned(r)[s].clone();
                for p in people.iter().chain([&owner]) {
                    if *p != owner && Some(p) != k.pend.get(a).map(|x| &x.0) && r.chance(2, 3) {
                        continue;
                    }
                    let c = &k.w.c;
                    let d = c.digest();
                    let ok = c.dry(|| {
                        for f in &funds {
                            c.fund(p, &f.denom, f.amount.u128());
                        }
                        c.exec(p, a, &msg, &funds).map(|_| ())
                    });
                    m.check(P, "dry-run", c.digest() == d, || "harness: the dry run left traces".into());
                    m.check(P, "powers", ok.is_ok() == (*p == owner), || format!("{p} at {a} (owner {owner}): {msg} gives {ok:?}"));
                    m.count("power probes");
                }
            }
        }
    }
}
