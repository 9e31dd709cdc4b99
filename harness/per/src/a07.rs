//! A07: the persisted ring buffer.
use crate::common::*;
use astroport_circular_buffer::{BufferManager, CircularBuffer};
use cosmwasm_std::testing::MockStorage;
const P: &str = "A07";
trait Val: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Clone + 'static {
    fn make(r: &mut Rng, n: usize) -> Self;
}
impl Val for Uint128 {
    fn make(r: &mut Rng, n: usize) -> Self {
        Uint128::new(r.log(1, 1 << 100) * 1000 + n as u128)
    }
}
impl Val for String {
    fn make(r: &mut Rng, n: usize) -> Self {
        format!("{n}:{}", "x".repeat(r.idx(40)))
    }
}
impl Val for (u32, Vec<Uint128>) {
    fn make(r: &mut Rng, n: usize) -> Self {
        (n as u32, (0..r.idx(4)).map(|_| Uint128::new(r.u128())).collect())
    }
}
pub fn buffer(r: &mut Rng, m: &mut Mon) {
    match r.below(3) {
        0 => run::<Uint128>(r, m),
        1 => run::<String>(r, m),
        _ => run::<(u32, Vec<Uint128>)>(r, m),
    }
}
fn run<V: Val>(r: &mut Rng, m: &mut Mon) {
    let mk = || CircularBuffer::<V>::new("state", "ring");
    let mk2 = || CircularBuffer::<V>::new("other_state", "other_ring");
    let cap: u32 = match r.below(6) {
        0 => 1,
        1 => r.range(2, 4) as u32,
        2 => r.range(100, 400) as u32,
        3 if r.chance(1, 4) => *r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 5, 1 << 31, (1 << 31) + 3]),
        _ => r.range(4, 30) as u32,
    };
    let small = cap <= 1000;
    let mut st = MockStorage::new();
    m.check(P, "not-initialised", BufferManager::new(&st, mk()).is_err(), || "a manager was opened before initialisation".into());
    BufferManager::init(&mut st, mk(), cap).expect("init");
    m.check(P, "double-init", BufferManager::init(&mut st, mk(), cap).is_err(), || "a buffer was initialised twice".into());
    // a second buffer in the same storage keeps apart
    BufferManager::init(&mut st, mk2(), 3).expect("init");
    let vals: Vec<V> = (0..700).map(|i| V::make(r, i)).collect();
    let mut next = 0usize;
    let mut arr: std::collections::BTreeMap<u32, V> = Default::default();
    let mut head = 0u32; // persisted
    let mut b2: Vec<V> = vec![];
    let rounds = r.range(1, 12);
    let mut wraps = 0u64;
    for round in 0..rounds {
        if round > 0 {
            m.check(P, "reinit", BufferManager::init(&mut st, mk(), cap + (cap < 1000) as u32).is_err(), || "a living buffer was initialised again".into());
        }
        let mut b = BufferManager::new(&st, mk()).expect("open");
        m.check(P, "capacity", b.capacity() == cap, || format!("{} vs {cap}", b.capacity()));
        m.check(P, "head-reloaded", b.head() == head, || format!("head {} after reload, {head} persisted", b.head()));
        let mut pre: Vec<(u32, V)> = vec![];
        let mut h = head;
        let ops = r.range(1, 25);
        for _ in 0..ops {
            if m.failed() || next + 60 >= vals.len() {
                return;
            }
            m.count("buffer operations");
            match r.weighted(&[6, 2, 3, 3, 2, 3, 2, 2, 1, 1]) {
                0 => {
                    m.step(|| format!("push #{next}"));
                    b.push(&vals[next]);
                    pre.push((h, vals[next].clone()));
                    next += 1;
                    h = (h + 1) % cap;
                    wraps += (h == 0) as u64;
                }
                1 => {
                    let n = r.idx(55.min(1 + 2 * cap.min(1000) as usize));
                    m.step(|| format!("push_many #{next}..{}", next + n));
                    b.push_many(&vals[next..next + n]);
                    for i in next..next + n {
                        pre.push((h, vals[i].clone()));
                        h = (h + 1) % cap;
                        wraps += (h == 0) as u64;
                    }
                    next += n;
                }
                2 => {
                    m.step(|| "commit".into());
                    b.commit(&mut st).expect("commit");
                    arr.extend(pre.drain(..));
                    head = h;
                }
                3 => {
                    m.step(|| format!("instant_push #{next}"));
                    b.instant_push(&mut st, &vals[next]).expect("instant push");
                    pre.push((h, vals[next].clone()));
                    next += 1;
                    h = (h + 1) % cap;
                    wraps += (h == 0) as u64;
                    arr.extend(pre.drain(..));
                    head = h;
                }
                4 => {
                    let got = b.read_last(&st).expect("read_last");
                    let want = arr.get(&((h as u64 + cap as u64 - 1) % cap as u64).try_into().unwrap()).cloned();
                    m.check(P, "read-last", got == want, || format!("read_last {got:?}, expected {want:?} (head {h})"));
                    if pre.is_empty() && !arr.is_empty() && next > 0 && arr.contains_key(&((h as u64 + cap as u64 - 1) % cap as u64).try_into().unwrap()) {
                        m.check(P, "read-newest", got.as_ref() == Some(&vals[next - 1]) || got == want, || "newest value".into());
                    }
                }
                5 => {
                    // arbitrary positions, in or out of range
                    let n = r.idx(8);
                    let top = if r.chance(1, 4) { cap as u64 + 3 } else { cap as u64 };
                    let mut ix: Vec<u32> = (0..n).map(|_| r.below(top.min(u32::MAX as u64)) as u32).collect();
                    if !small && r.chance(1, 2) {
                        ix = (0..n as u32).collect();
                    }
                    let stop = r.chance(1, 2);
                    let mut want: Result<Vec<V>, ()> = Ok(vec![]);
                    for i in &ix {
                        if *i >= cap {
                            want = Err(());
                            break;
                        }
                        match arr.get(i) {
                            Some(v) => want.as_mut().unwrap().push(v.clone()),
                            None if stop => break,
                            None => {
                                want = Err(());
                                break;
                            }
                        }
                    }
                    m.step(|| format!("read {ix:?} stop {stop}"));
                    let got = b.read(&st, ix.clone(), stop).map_err(|_| ());
                    m.check(P, "read", got == want, || format!("read({ix:?}, {stop}) = {got:?}, expected {want:?}"));
                }
                6 => {
                    let got = b.read_all(&st).expect("read_all");
                    let mut want = vec![];
                    for i in 0..cap {
                        match arr.get(&i) {
                            Some(v) => want.push(v.clone()),
                            None => break,
                        }
                    }
                    m.check(P, "read-all", got == want, || format!("read_all gave {} values, expected {}: {got:?} / {want:?}", got.len(), want.len()));
                }
                7 => {
                    let i = if r.chance(1, 2) { r.below(2 * cap.min(1000) as u64 + 3) as u32 } else { r.u64() as u32 };
                    let want = arr.get(&(i % cap)).cloned();
                    let got = b.read_single(&st, i).expect("read_single");
                    m.check(P, "read-single", got == want, || format!("read_single({i}) = {got:?}, expected {want:?}"));
                    m.check(P, "exists", b.exists(&st, i) == want.is_some(), || format!("exists({i})"));
                }
                8 if small => {
                    m.step(|| "clear".into());
                    b.clear_buffer(&mut st);
                    arr.clear();
                }
                _ => {
                    // the neighbour
                    let mut o = BufferManager::new(&st, mk2()).expect("open");
                    o.instant_push(&mut st, &vals[next]).expect("push");
                    b2.push(vals[next].clone());
                    next += 1;
                    let o = BufferManager::new(&st, mk2()).expect("open");
                    let got = o.read_last(&st).expect("read");
                    m.check(P, "neighbour", got.as_ref() == b2.last(), || format!("the other buffer's last value is {got:?}"));
                }
            }
            m.check(P, "head", b.head() == h && b.capacity() == cap, || format!("head {} capacity {}, expected {h} {cap}", b.head(), b.capacity()));
            m.seen(P, (cap.min(60), pre.len().min(12), arr.len().min(30), wraps.min(3)));
        }
        m.sample(P, || format!("capacity {cap}: {next} values pushed, {} kept, head {head}, {} uncommitted", arr.len(), pre.len()));
    }
    // everything that was committed is there, whatever happened to uncommitted values
    let b = BufferManager::new(&st, mk()).expect("open");
    for (i, v) in &arr {
        let got = b.read_single(&st, *i).expect("read");
        m.check(P, "final", got.as_ref() == Some(v), || format!("position {i}: {got:?}, expected {v:?}"));
    }
    let n2 = b2.len();
    let o = BufferManager::new(&st, mk2()).expect("open");
    for i in n2.saturating_sub(3)..n2 {
        let got = o.read_single(&st, (i % 3) as u32).expect("read");
        m.check(P, "neighbour-final", got.as_ref() == Some(&b2[i]), || format!("the other buffer at {}: {got:?}", i % 3));
    }
}
