// Runtime verification harness, compiled into skyd's own test build by the cfg(skyd_verif) hook
// in server/src/engine/mod.rs. It drives the real data structures and the real statement
// executor; Miri (or AddressSanitizer) watches every memory access and the monitors below watch
// the results. A violation is a panic whose message starts with "SKYV:", or a report of the
// instrumentation. What was observed is printed as lines "SKYV-OBS section key=value ...".

/// everything the sections share
mod common {
    use std::{
        collections::{hash_map::RandomState, BTreeMap},
        hash::{BuildHasher, Hasher},
        sync::{
            atomic::{AtomicIsize, AtomicUsize, Ordering},
            Arc, Mutex,
        },
    };

    pub fn envn(name: &str, default: u64) -> u64 {
        std::env::var(name)
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(default)
    }
    /// workload size factor: 1 under Miri, much more when run natively
    pub fn scale() -> u64 {
        envn("SKYV_SCALE", 1)
    }

    #[derive(Clone)]
    pub struct Rng(u64);
    impl Rng {
        /// varies with the interpreter's seed (-Zmiri-seed) and with SKYV_SEED
        pub fn new(salt: u64) -> Self {
            let mut h = RandomState::new().build_hasher();
            h.write_u64(salt);
            let r = if cfg!(miri) { h.finish() } else { 0 };
            let s = r ^ envn("SKYV_SEED", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
                ^ salt.wrapping_mul(0xD1B5_4A32_D192_ED03);
            let mut me = Self(s | 1);
            for _ in 0..4 {
                me.next();
            }
            me
        }
        pub fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.next() % n
        }
        pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
            &s[self.below(s.len() as u64) as usize]
        }
        pub fn chance(&mut self, n: u64) -> bool {
            self.below(n) == 0
        }
    }

    /// counts of what was observed; printed at the end of a section
    #[derive(Default)]
    pub struct Obs(Mutex<BTreeMap<String, u64>>);
    impl Obs {
        pub fn add(&self, k: &str, n: u64) {
            *self.0.lock().unwrap().entry(k.to_owned()).or_insert(0) += n;
        }
        pub fn print(&self, section: &str) {
            let mut s = format!("SKYV-OBS {section}");
            for (k, v) in self.0.lock().unwrap().iter() {
                s.push_str(&format!(" {k}={v}"));
            }
            println!("{s}");
        }
    }

    pub struct Live {
        pub made: AtomicUsize,
        pub live: AtomicIsize,
    }
    impl Live {
        pub fn new() -> Arc<Self> {
            Arc::new(Self {
                made: AtomicUsize::new(0),
                live: AtomicIsize::new(0),
            })
        }
        pub fn live(&self) -> isize {
            self.live.load(Ordering::SeqCst)
        }
    }
    /// a value that owns heap memory and reports its own creation, copies and destruction
    pub struct Tracked {
        pub id: u64,
        // a canary on the heap: a stale or doubly freed copy is a memory error
        body: Box<[u64; 3]>,
        l: Arc<Live>,
    }
    impl Tracked {
        pub fn new(id: u64, l: &Arc<Live>) -> Self {
            l.made.fetch_add(1, Ordering::Relaxed);
            l.live.fetch_add(1, Ordering::Relaxed);
            Self {
                id,
                body: Box::new([id, !id, id ^ 0x5555]),
                l: l.clone(),
            }
        }
        pub fn check(&self) -> u64 {
            assert!(
                self.body[0] == self.id && self.body[1] == !self.id && self.body[2] == self.id ^ 0x5555,
                "SKYV: a value changed behind its owner's back: {} {:?}",
                self.id,
                self.body
            );
            self.id
        }
    }
    impl Clone for Tracked {
        fn clone(&self) -> Self {
            self.check();
            Self::new(self.id, &self.l)
        }
    }
    impl Drop for Tracked {
        fn drop(&mut self) {
            self.check();
            self.l.live.fetch_sub(1, Ordering::Relaxed);
        }
    }
    impl PartialEq for Tracked {
        fn eq(&self, o: &Self) -> bool {
            self.check() == o.check()
        }
    }
    impl Eq for Tracked {}
    impl std::hash::Hash for Tracked {
        fn hash<H: Hasher>(&self, h: &mut H) {
            h.write_u64(self.check())
        }
    }
    impl std::fmt::Debug for Tracked {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "t{}", self.id)
        }
    }
    /// everything that was retired is destroyed once nobody can see it any more
    pub fn expect_no_leak(l: &Arc<Live>, what: &str) {
        for _ in 0..4000 {
            if l.live() == 0 {
                return;
            }
            crossbeam_epoch::pin().flush();
            std::thread::yield_now();
        }
        panic!(
            "SKYV: {what}: {} of {} values are still alive after everything was dropped (negative: dropped twice)",
            l.live(),
            l.made.load(Ordering::SeqCst)
        );
    }

    /// global time stamps; in "quiet" rounds none are taken, since a stamp orders the threads
    /// and could hide a missing synchronisation in the code under test
    pub struct Clock {
        t: AtomicUsize,
        on: bool,
    }
    impl Clock {
        pub fn new(on: bool) -> Self {
            Self {
                t: AtomicUsize::new(1),
                on,
            }
        }
        pub fn now(&self) -> usize {
            if self.on {
                self.t.fetch_add(1, Ordering::SeqCst)
            } else {
                0
            }
        }
    }
}

/// the lock-free queue of pending data deltas
mod queue {
    use super::common::*;
    use crate::engine::sync::queue::Queue;
    use crossbeam_epoch::pin;
    use std::{sync::Arc, thread};

    struct Enq {
        id: u64,
        s: usize,
        e: usize,
    }
    struct Deq {
        id: Option<u64>,
        s: usize,
        e: usize,
    }

    fn round(rng: &mut Rng, obs: &Obs, stamps: bool) {
        let live = Live::new();
        let q: Arc<Queue<Tracked>> = Arc::new(Queue::new());
        let clk = Arc::new(Clock::new(stamps));
        let np = 1 + rng.below(3);
        let nc = 1 + rng.below(2);
        let per = 2 + rng.below(4) * scale();
        let hold = rng.chance(2);
        let mut ps = vec![];
        for p in 0..np {
            let (q, clk, live) = (q.clone(), clk.clone(), live.clone());
            let mixed = rng.chance(3);
            ps.push(thread::spawn(move || {
                let mut out = vec![];
                let mut deqs = vec![];
                let long = pin();
                for i in 0..per {
                    let id = p << 32 | i;
                    let t = Tracked::new(id, &live);
                    let s = clk.now();
                    if hold {
                        q.blocking_enqueue(t, &long);
                    } else {
                        q.blocking_enqueue(t, &pin());
                    }
                    out.push(Enq { id, s, e: clk.now() });
                    if mixed && i % 2 == 1 {
                        let s = clk.now();
                        let r = q.blocking_try_dequeue(&pin()).map(|t| t.check());
                        deqs.push(Deq { id: r, s, e: clk.now() });
                    }
                }
                (out, deqs)
            }));
        }
        let mut cs = vec![];
        for _ in 0..nc {
            let (q, clk) = (q.clone(), clk.clone());
            let tries = per * np / nc + 2;
            cs.push(thread::spawn(move || {
                let mut out = vec![];
                for _ in 0..tries {
                    let s = clk.now();
                    let r = q.blocking_try_dequeue(&pin());
                    let id = r.as_ref().map(|t| t.check());
                    out.push(Deq { id, s, e: clk.now() });
                    drop(r);
                }
                out
            }));
        }
        let mut enq = vec![];
        let mut seqs: Vec<Vec<Deq>> = vec![];
        for p in ps {
            let (e, d) = p.join().unwrap();
            enq.extend(e);
            seqs.push(d);
        }
        for c in cs {
            seqs.push(c.join().unwrap());
        }
        // leave some elements in for the destructor in half of the rounds
        let mut rest = vec![];
        if rng.chance(2) {
            let g = pin();
            loop {
                let s = clk.now();
                let r = q.blocking_try_dequeue(&g).map(|t| t.check());
                let last = r.is_none();
                rest.push(Deq { id: r, s, e: clk.now() });
                if last {
                    break;
                }
            }
            obs.add("drained", rest.len() as u64 - 1);
        }
        seqs.push(rest);
        // exactly once
        let mut got = std::collections::BTreeMap::new();
        for (ci, s) in seqs.iter().enumerate() {
            for d in s {
                if let Some(id) = d.id {
                    assert!(
                        enq.iter().any(|e| e.id == id),
                        "SKYV: queue: an element nobody put in came out: {id:#x}"
                    );
                    assert!(
                        got.insert(id, (ci, d.s, d.e)).is_none(),
                        "SKYV: queue: element {id:#x} came out twice"
                    );
                }
            }
        }
        if seqs.last().map(|s| !s.is_empty()).unwrap_or(false) {
            assert_eq!(
                got.len(),
                enq.len(),
                "SKYV: queue: an element was lost: it is empty but not everything came out"
            );
        }
        // the elements of one producer come out in order wherever one thread takes several
        for s in &seqs {
            for p in 0..np {
                let of: Vec<u64> = s.iter().filter_map(|d| d.id).filter(|i| i >> 32 == p).collect();
                assert!(
                    of.windows(2).all(|w| w[0] < w[1]),
                    "SKYV: queue: a thread took the elements of one producer in the order {of:x?}"
                );
            }
        }
        if stamps {
            for a in &enq {
                for b in &enq {
                    if a.e < b.s {
                        // a entered before b: b never leaves wholly before a
                        if let Some(db) = got.get(&b.id) {
                            match got.get(&a.id) {
                                Some(da) => assert!(
                                    !(db.2 < da.1),
                                    "SKYV: queue: {:#x} went in after {:#x} but came out before it",
                                    b.id,
                                    a.id
                                ),
                                None => panic!(
                                    "SKYV: queue: {:#x} went in after {:#x}, came out, and the other never did",
                                    b.id, a.id
                                ),
                            }
                            obs.add("order_pairs", 1);
                        }
                    }
                }
            }
            for d in seqs.iter().flatten().filter(|d| d.id.is_none()) {
                for a in &enq {
                    if a.e < d.s {
                        let out = got.get(&a.id).map(|x| x.1);
                        assert!(
                            matches!(out, Some(t) if t < d.e),
                            "SKYV: queue: reported empty while {:#x} was in it",
                            a.id
                        );
                    }
                }
                obs.add("empties", 1);
            }
        }
        obs.add("enqueued", enq.len() as u64);
        obs.add("dequeued", got.len() as u64);
        obs.add("rounds", 1);
        drop(seqs);
        drop(Arc::try_unwrap(q).ok().unwrap());
        expect_no_leak(&live, "queue");
    }

    #[test]
    fn queue_rounds() {
        let obs = Obs::default();
        let mut rng = Rng::new(1);
        for i in 0..4 * scale() {
            round(&mut rng, &obs, i % 2 == 0);
        }
        obs.print("queue");
    }
}

/// the concurrent tree behind the primary index
mod tree {
    use super::common::*;
    use crate::engine::{
        idx::{
            mtchm::{
                imp::Raw,
                meta::{Config2B, DefConfig},
            },
            IndexBaseSpec, MTIndex, MTIndexExt,
        },
        sync::atm::cpin,
    };
    use std::{
        collections::{BTreeMap, HashMap, HashSet},
        hash::{BuildHasher, Hasher},
        sync::Arc,
        thread,
    };

    // hashers that choose the shape of the tree
    #[derive(Default)]
    pub struct Ident(u64);
    impl Hasher for Ident {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = self.0 << 8 | *x as u64
            }
        }
        fn write_u64(&mut self, i: u64) {
            self.0 = i
        }
    }
    macro_rules! state {
        ($state:ident, $hasher:ident, $f:expr) => {
            #[derive(Default)]
            pub struct $hasher(Ident);
            impl Hasher for $hasher {
                fn finish(&self) -> u64 {
                    let f: fn(u64) -> u64 = $f;
                    f(self.0.finish())
                }
                fn write(&mut self, b: &[u8]) {
                    self.0.write(b)
                }
                fn write_u64(&mut self, i: u64) {
                    self.0.write_u64(i)
                }
            }
            #[derive(Default)]
            pub struct $state;
            impl BuildHasher for $state {
                type Hasher = $hasher;
                fn build_hasher(&self) -> $hasher {
                    Default::default()
                }
            }
        };
    }
    // all in one slot of the deepest level
    state!(SConst, HConst, |_| 0x0123_4567_89ab_cdef);
    // share the first eight levels
    state!(SDeep, HDeep, |k| (k << 32) | 0x7654_3210);
    // two keys per slot of the deepest level
    state!(SPairs, HPairs, |k| (k / 2) << 60 | 0x0fff_ffff_ffff_fff0);
    // as many branches as possible
    state!(SWide, HWide, |k| k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    // siblings in one branch
    state!(SFlat, HFlat, |k| k & 15 | (k << 4));

    type T<S> = Raw<(Tracked, Tracked), Config2B<S>>;

    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Get,
        Has,
        Ins(u64),
        Ups(u64),
        Upd(u64),
        UpdRet(u64),
        Del,
        DelRet,
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Res {
        None,
        Unit,
        Bool(bool),
        Val(Option<u64>),
    }
    #[derive(Clone, Debug)]
    struct Ev {
        key: u64,
        op: Op,
        res: Res,
        s: usize,
        e: usize,
    }
    fn step(st: Option<u64>, op: Op) -> (Option<u64>, Res) {
        match op {
            Op::Get => (st, Res::Val(st)),
            Op::Has => (st, Res::Bool(st.is_some())),
            Op::Ins(v) => match st {
                None => (Some(v), Res::Bool(true)),
                s => (s, Res::Bool(false)),
            },
            Op::Ups(v) => (Some(v), Res::Unit),
            Op::Upd(v) => match st {
                None => (None, Res::Bool(false)),
                _ => (Some(v), Res::Bool(true)),
            },
            Op::UpdRet(v) => match st {
                None => (None, Res::Val(None)),
                s => (Some(v), Res::Val(s)),
            },
            Op::Del => (None, Res::Bool(st.is_some())),
            Op::DelRet => (None, Res::Val(st)),
        }
    }
    fn apply<S: BuildHasher + Default + 'static>(t: &T<S>, key: u64, op: Op, live: &Arc<Live>) -> Res {
        let g = cpin();
        let k = Tracked::new(key, live);
        let mk = |v: u64| (k.clone(), Tracked::new(v, live));
        match op {
            Op::Get => Res::Val(t.mt_get(&k, &g).map(|v| v.check())),
            Op::Has => Res::Bool(t.mt_contains(&k, &g)),
            Op::Ins(v) => Res::Bool(t.mt_insert(mk(v), &g)),
            Op::Ups(v) => {
                t.mt_upsert(mk(v), &g);
                Res::Unit
            }
            Op::Upd(v) => Res::Bool(t.mt_update(mk(v), &g)),
            Op::UpdRet(v) => Res::Val(t.mt_update_return(mk(v), &g).map(|v| v.check())),
            Op::Del => Res::Bool(t.mt_delete(&k, &g)),
            Op::DelRet => Res::Val(t.mt_delete_return(&k, &g).map(|v| v.check())),
        }
    }

    /// is there an order of the operations on one key, each taking effect within its call, that
    /// explains every result and the final value? (without stamps: within its thread's order)
    fn explain(threads: &[Vec<Ev>], init: Option<u64>, fin: Option<u64>, stamps: bool) -> bool {
        fn go(
            th: &[Vec<Ev>],
            pos: &mut Vec<usize>,
            st: Option<u64>,
            fin: Option<u64>,
            stamps: bool,
            seen: &mut HashSet<(Vec<usize>, Option<u64>)>,
        ) -> bool {
            if pos.iter().zip(th).all(|(p, t)| *p == t.len()) {
                return st == fin;
            }
            if !seen.insert((pos.clone(), st)) {
                return false;
            }
            let bound = if stamps {
                th.iter()
                    .zip(pos.iter())
                    .filter_map(|(t, p)| t.get(*p).map(|e| e.e))
                    .min()
                    .unwrap()
            } else {
                usize::MAX
            };
            for i in 0..th.len() {
                if let Some(e) = th[i].get(pos[i]) {
                    if stamps && e.s > bound {
                        continue;
                    }
                    let (n, r) = step(st, e.op);
                    if r == e.res {
                        pos[i] += 1;
                        if go(th, pos, n, fin, stamps, seen) {
                            return true;
                        }
                        pos[i] -= 1;
                    }
                }
            }
            false
        }
        go(
            threads,
            &mut vec![0; threads.len()],
            init,
            fin,
            stamps,
            &mut HashSet::new(),
        )
    }

    fn round<S: BuildHasher + Default + Send + Sync + 'static>(
        rng: &mut Rng,
        obs: &Obs,
        stamps: bool,
        shape: &str,
    ) {
        let live = Live::new();
        let t: Arc<T<S>> = Arc::new(IndexBaseSpec::idx_init());
        let nkeys = 2 + rng.below(5);
        let nstable = rng.below(3);
        let mut init: BTreeMap<u64, u64> = BTreeMap::new();
        for k in 0..nkeys {
            if rng.chance(2) {
                assert!(apply(&t, k, Op::Ins(1000 + k), &live) == Res::Bool(true));
                init.insert(k, 1000 + k);
            }
        }
        for k in 0..nstable {
            assert!(apply(&t, 100 + k, Op::Ins(2000 + k), &live) == Res::Bool(true));
        }
        let clk = Arc::new(Clock::new(stamps));
        let nthreads = 2 + rng.below(2);
        let nops = 3 + rng.below(4);
        let iterate = rng.chance(2);
        let mut hs = vec![];
        for th in 0..nthreads {
            let (t, clk, live) = (t.clone(), clk.clone(), live.clone());
            let mut r = rng.clone();
            for _ in 0..=th {
                rng.next();
                r.next();
            }
            let mut r = Rng::new(r.next());
            hs.push(thread::spawn(move || {
                let mut out = vec![];
                for i in 0..nops {
                    let key = r.below(nkeys);
                    let v = (th + 1) << 16 | i;
                    let op = match r.below(14) {
                        0 | 1 => Op::Get,
                        2 => Op::Has,
                        3 | 4 | 5 => Op::Ins(v),
                        6 | 7 => Op::Ups(v),
                        8 => Op::Upd(v),
                        9 => Op::UpdRet(v),
                        10 | 11 => Op::Del,
                        _ => Op::DelRet,
                    };
                    let s = clk.now();
                    let res = apply(&t, key, op, &live);
                    let e = clk.now();
                    out.push(Ev { key, op, res, s, e });
                }
                out
            }));
        }
        // scans running at the same time: whatever is there throughout is seen exactly once
        let mut scans = 0;
        if iterate {
            for _ in 0..2 {
                let g = cpin();
                let mut seen: HashMap<u64, u32> = HashMap::new();
                match rng.below(3) {
                    0 => {
                        for (k, v) in t.mt_iter_kv(&g) {
                            v.check();
                            *seen.entry(k.check()).or_insert(0) += 1;
                        }
                    }
                    1 => {
                        for k in t.mt_iter_key(&g) {
                            *seen.entry(k.check()).or_insert(0) += 1;
                        }
                    }
                    _ => {
                        for e in t.mt_iter_entry(&g) {
                            e.1.check();
                            *seen.entry(e.0.check()).or_insert(0) += 1;
                        }
                    }
                }
                for k in 0..nstable {
                    assert_eq!(
                        seen.get(&(100 + k)),
                        Some(&1),
                        "SKYV: tree ({shape}): a scan did not see exactly once an entry that was there all the time"
                    );
                }
                for (k, n) in seen {
                    assert!(
                        n == 1 && (k < nkeys || (k >= 100 && k < 100 + nstable)),
                        "SKYV: tree ({shape}): a scan saw entry {k} {n} times"
                    );
                }
                scans += 1;
            }
        }
        let hist: Vec<Vec<Ev>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        // the final state, read in four ways
        let g = cpin();
        let mut fin = BTreeMap::new();
        for (k, v) in t.mt_iter_kv(&g) {
            assert!(
                fin.insert(k.check(), v.check()).is_none(),
                "SKYV: tree ({shape}): a quiet scan saw an entry twice"
            );
        }
        assert_eq!(
            t.mt_len(),
            fin.len(),
            "SKYV: tree ({shape}): the length is not the number of entries"
        );
        for k in (0..nkeys).chain((0..nstable).map(|x| x + 100)) {
            let kk = Tracked::new(k, &live);
            assert_eq!(
                t.mt_get(&kk, &g).map(|v| v.check()),
                fin.get(&k).copied(),
                "SKYV: tree ({shape}): a lookup and a scan disagree about entry {k}"
            );
            assert_eq!(
                t.mt_get_element(&kk, &g).map(|v| (v.0.check(), v.1.check())),
                fin.get(&k).map(|v| (k, *v)),
                "SKYV: tree ({shape}): the entry of key {k} is another one"
            );
        }
        for k in 0..nkeys {
            let per: Vec<Vec<Ev>> = hist
                .iter()
                .map(|t| t.iter().filter(|e| e.key == k).cloned().collect())
                .collect();
            assert!(
                explain(&per, init.get(&k).copied(), fin.get(&k).copied(), stamps),
                "SKYV: tree ({shape}): no order explains what happened to key {k}: initially {:?}, finally {:?}, {per:?}",
                init.get(&k),
                fin.get(&k)
            );
            obs.add("key_histories", 1);
        }
        drop(g);
        obs.add("ops", nthreads * nops);
        obs.add("scans", scans);
        obs.add("rounds", 1);
        obs.add(&format!("shape:{shape}"), 1);
        if rng.chance(3) {
            t.mt_clear(&cpin());
            assert_eq!(
                t.mt_len(),
                0,
                "SKYV: tree ({shape}): not empty after it was cleared"
            );
            obs.add("cleared", 1);
        }
        drop(Arc::try_unwrap(t).ok().unwrap());
        expect_no_leak(&live, "tree");
    }

    fn pick(rng: &mut Rng, obs: &Obs, stamps: bool) {
        match rng.below(6) {
            0 => round::<SConst>(rng, obs, stamps, "const"),
            1 => round::<SDeep>(rng, obs, stamps, "deep"),
            2 => round::<SPairs>(rng, obs, stamps, "pairs"),
            3 => round::<SWide>(rng, obs, stamps, "wide"),
            4 => round::<SFlat>(rng, obs, stamps, "flat"),
            _ => round::<std::collections::hash_map::RandomState>(rng, obs, stamps, "random"),
        }
    }

    #[test]
    fn tree_rounds() {
        let obs = Obs::default();
        let mut rng = Rng::new(2);
        for i in 0..4 * scale() {
            pick(&mut rng, &obs, i % 2 == 0);
        }
        obs.print("tree");
    }

    fn walk<S: BuildHasher + Default + 'static>(rng: &mut Rng, obs: &Obs, n: u64, keys: u64, shape: &str) {
        let live = Live::new();
        let t: T<S> = IndexBaseSpec::idx_init();
        let mut m: HashMap<u64, u64> = HashMap::new();
        for i in 0..n {
            let key = rng.below(keys);
            let op = match rng.below(10) {
                0 => Op::Get,
                1 => Op::Has,
                2 | 3 | 4 => Op::Ins(i + 1),
                5 => Op::Ups(i + 1),
                6 => Op::UpdRet(i + 1),
                7 => Op::Upd(i + 1),
                8 => Op::Del,
                _ => Op::DelRet,
            };
            let st = m.get(&key).copied();
            let (nst, want) = step(st, op);
            let got = apply(&t, key, op, &live);
            assert_eq!(
                got, want,
                "SKYV: tree ({shape}): {op:?} on key {key} with value {st:?}"
            );
            match nst {
                Some(v) => m.insert(key, v),
                None => m.remove(&key),
            };
            if i % 64 == 63 {
                let g = cpin();
                let mut all: Vec<_> = t.mt_iter_kv(&g).map(|(k, v)| (k.check(), v.check())).collect();
                all.sort();
                let mut want: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                want.sort();
                assert_eq!(all, want, "SKYV: tree ({shape}): the contents differ");
                assert_eq!(t.mt_len(), m.len(), "SKYV: tree ({shape}): the length differs");
            }
        }
        obs.add("walk_ops", n);
        drop(t);
        expect_no_leak(&live, "tree walk");
    }
    #[test]
    fn tree_walks() {
        let obs = Obs::default();
        let mut rng = Rng::new(3);
        let n = 120 * scale();
        let keys = 10 + 4 * scale().min(200);
        walk::<SConst>(&mut rng, &obs, n, keys.min(40), "const");
        walk::<SDeep>(&mut rng, &obs, n, keys, "deep");
        walk::<SPairs>(&mut rng, &obs, n, keys.min(30), "pairs");
        walk::<SFlat>(&mut rng, &obs, n, keys, "flat");
        walk::<<DefConfig as crate::engine::idx::mtchm::meta::PreConfig>::HState>(
            &mut rng, &obs, n, keys, "random",
        );
        obs.print("tree_walk");
    }
}

/// single threaded building blocks against simple models
mod blocks {
    use super::common::*;
    use crate::engine::{
        idx::{IndexBaseSpec, IndexSTSeqCns, IndexSTSeqLib, STIndex, STIndexSeq},
        mem::{UArray, VInline},
    };

    fn vinline<const N: usize>(rng: &mut Rng, obs: &Obs) {
        let live = Live::new();
        let mut v: VInline<N, Tracked> = VInline::new();
        let mut m: Vec<u64> = vec![];
        for i in 0..40 * scale() {
            match rng.below(12) {
                0..=4 => {
                    v.push(Tracked::new(i, &live));
                    m.push(i);
                }
                5 | 6 if !m.is_empty() => {
                    let p = rng.below(m.len() as u64) as usize;
                    assert_eq!(v.remove(p).check(), m.remove(p), "SKYV: VInline::remove");
                }
                7 if !m.is_empty() => {
                    let p = rng.below(m.len() as u64) as usize;
                    assert_eq!(v.remove_compact(p).check(), m.remove(p), "SKYV: VInline::remove_compact");
                }
                8 => v.optimize_capacity(),
                9 if rng.chance(4) => {
                    v.clear();
                    m.clear();
                }
                10 => {
                    let c = v.clone();
                    // consumed from both ends, and only partly
                    let mut it = c.into_iter();
                    let mut want = m.iter().copied().collect::<std::collections::VecDeque<_>>();
                    for _ in 0..rng.below(m.len() as u64 + 2) {
                        if rng.chance(2) {
                            assert_eq!(it.next().map(|x| x.check()), want.pop_front(), "SKYV: VInline iterator");
                        } else {
                            assert_eq!(it.next_back().map(|x| x.check()), want.pop_back(), "SKYV: VInline iterator (back)");
                        }
                    }
                }
                _ => {
                    let add: Vec<_> = (0..rng.below(3)).map(|x| Tracked::new(x + 500, &live)).collect();
                    m.extend(add.iter().map(|x| x.id));
                    v.extend(add);
                }
            }
            assert_eq!(v.len(), m.len(), "SKYV: VInline length");
            assert!(
                v.iter().map(|x| x.check()).eq(m.iter().copied()),
                "SKYV: VInline contents: {v:?} instead of {m:?}"
            );
            assert!(v.capacity() >= v.len(), "SKYV: VInline capacity");
        }
        obs.add("vinline_ops", 40 * scale());
        drop(v);
        expect_no_leak(&live, "VInline");
    }

    fn uarray(rng: &mut Rng, obs: &Obs) {
        let live = Live::new();
        let mut v: UArray<8, Tracked> = UArray::new();
        let mut m: Vec<u64> = vec![];
        for i in 0..40 * scale() {
            match rng.below(8) {
                0..=3 if m.len() < 8 => {
                    v.push(Tracked::new(i, &live));
                    m.push(i);
                }
                4 if !m.is_empty() => {
                    let p = rng.below(m.len() as u64) as usize;
                    assert_eq!(v.remove(p).check(), m.remove(p), "SKYV: UArray::remove");
                }
                5 => assert_eq!(v.pop().map(|x| x.check()), m.pop(), "SKYV: UArray::pop"),
                6 if rng.chance(4) => {
                    v.clear();
                    m.clear();
                }
                _ => {
                    let mut it = v.clone().into_iter();
                    let mut want = m.iter().copied().collect::<std::collections::VecDeque<_>>();
                    for _ in 0..rng.below(m.len() as u64 + 2) {
                        if rng.chance(2) {
                            assert_eq!(it.next().map(|x| x.check()), want.pop_front(), "SKYV: UArray iterator");
                        } else {
                            assert_eq!(it.next_back().map(|x| x.check()), want.pop_back(), "SKYV: UArray iterator (back)");
                        }
                    }
                }
            }
            assert!(
                v.as_slice().iter().map(|x| x.check()).eq(m.iter().copied()) && v.len() == m.len(),
                "SKYV: UArray contents"
            );
        }
        obs.add("uarray_ops", 40 * scale());
        drop(v);
        expect_no_leak(&live, "UArray");
    }

    macro_rules! seqidx {
        ($name:ident, $ty:ident) => {
            fn $name(rng: &mut Rng, obs: &Obs) {
                let live = Live::new();
                let mut t: $ty<Tracked, Tracked> = IndexBaseSpec::idx_init();
                // insertion order, oldest first
                let mut m: Vec<(u64, u64)> = vec![];
                for i in 0..60 * scale() {
                    let key = rng.below(12);
                    let k = Tracked::new(key, &live);
                    let at = m.iter().position(|x| x.0 == key);
                    match rng.below(12) {
                        0..=3 => {
                            let r = t.st_insert(k, Tracked::new(i, &live));
                            assert_eq!(r, at.is_none(), "SKYV: ordered index: insert");
                            if r {
                                m.push((key, i));
                            }
                        }
                        4 => {
                            let r = t.st_update(&k, Tracked::new(i, &live));
                            assert_eq!(r, at.is_some(), "SKYV: ordered index: update");
                            // what is updated becomes the newest
                            if let Some(p) = at {
                                m.remove(p);
                                m.push((key, i));
                            }
                        }
                        5 => {
                            let r = t.st_update_return(&k, Tracked::new(i, &live)).map(|v| v.check());
                            assert_eq!(r, at.map(|p| m[p].1), "SKYV: ordered index: update_return");
                            // what is updated becomes the newest
                            if let Some(p) = at {
                                m.remove(p);
                                m.push((key, i));
                            }
                        }
                        6 | 7 => {
                            let r = t.st_delete(&k);
                            assert_eq!(r, at.is_some(), "SKYV: ordered index: delete");
                            if let Some(p) = at {
                                m.remove(p);
                            }
                        }
                        8 => {
                            let r = t.st_delete_return(&k).map(|v| v.check());
                            assert_eq!(r, at.map(|p| m[p].1), "SKYV: ordered index: delete_return");
                            if let Some(p) = at {
                                m.remove(p);
                            }
                        }
                        9 => {
                            if rng.chance(10) {
                                t.st_clear();
                                m.clear();
                            } else {
                                t.st_compact();
                            }
                        }
                        10 => {
                            t.st_upsert(k, Tracked::new(i, &live));
                            if let Some(p) = at {
                                m.remove(p);
                            }
                            m.push((key, i));
                        }
                        _ => {
                            if let Some(v) = t.st_get_mut(&k) {
                                *v = Tracked::new(i, &live);
                                m[at.unwrap()].1 = i;
                            } else {
                                assert!(at.is_none(), "SKYV: ordered index: get_mut");
                            }
                        }
                    }
                    assert_eq!(t.st_len(), m.len(), "SKYV: ordered index: length");
                    assert!(
                        t.stseq_ord_kv().map(|(k, v)| (k.check(), v.check())).eq(m.iter().copied()),
                        "SKYV: ordered index: entries are not in insertion order"
                    );
                    assert!(
                        t.stseq_ord_kv().rev().map(|(k, v)| (k.check(), v.check())).eq(m.iter().rev().copied()),
                        "SKYV: ordered index: backward scan"
                    );
                    assert!(
                        t.stseq_ord_key().map(|k| k.check()).eq(m.iter().map(|x| x.0))
                            && t.stseq_ord_value().map(|k| k.check()).eq(m.iter().map(|x| x.1)),
                        "SKYV: ordered index: key or value scan"
                    );
                    let mut un: Vec<_> = t.st_iter_kv().map(|(k, v)| (k.check(), v.check())).collect();
                    un.sort();
                    let mut w = m.clone();
                    w.sort();
                    assert_eq!(un, w, "SKYV: ordered index: unordered scan");
                    for key in 0..12 {
                        let k = Tracked::new(key, &live);
                        assert_eq!(
                            t.st_get(&k).map(|v| v.check()),
                            m.iter().find(|x| x.0 == key).map(|x| x.1),
                            "SKYV: ordered index: lookup"
                        );
                    }
                }
                obs.add("ordered_index_ops", 60 * scale());
                match rng.below(4) {
                    0 => drop(t),
                    1 => {
                        // owned iteration, abandoned half way
                        let mut it = t.stseq_owned_kv();
                        for x in m.iter().take(m.len() / 2) {
                            let (k, v) = it.next().unwrap();
                            assert_eq!((k.check(), v.check()), *x, "SKYV: ordered index: owned scan");
                        }
                    }
                    2 => {
                        let all: Vec<_> = t.stseq_owned_keys().map(|k| k.check()).collect();
                        assert!(all.iter().copied().eq(m.iter().map(|x| x.0)), "SKYV: ordered index: owned keys");
                    }
                    _ => {
                        let mut it = t.stseq_owned_values();
                        if let Some(x) = m.last() {
                            assert_eq!(it.next_back().map(|v| v.check()), Some(x.1), "SKYV: ordered index: owned values");
                        }
                    }
                }
                expect_no_leak(&live, "ordered index");
            }
        };
    }
    seqidx!(seq_cns, IndexSTSeqCns);
    seqidx!(seq_lib, IndexSTSeqLib);

    #[test]
    fn block_walks() {
        let obs = Obs::default();
        let mut rng = Rng::new(4);
        for _ in 0..scale().min(50) {
            vinline::<1>(&mut rng, &obs);
            vinline::<2>(&mut rng, &obs);
            vinline::<8>(&mut rng, &obs);
            uarray(&mut rng, &obs);
            seq_cns(&mut rng, &obs);
            seq_lib(&mut rng, &obs);
        }
        obs.print("blocks");
    }
}

/// whole statements, executed concurrently by the real executor over the in-memory file system
mod engine {
    use super::common::*;
    use crate::engine::{
        core::{dml, model::ModelData, space::Space, EntityIDRef},
        data::cell::Datacell,
        error::QueryResult,
        data::uuid::Uuid,
        fractal::{
            test_utils::TestGlobal, CriticalTask, FractalModelDriver, GenericTask, GlobalHealth,
            GlobalInstanceLike, Task,
        },
        core::GlobalNS,
        RuntimeResult,
        storage::{safe_interfaces::StdModelBatch, BatchStats},
        ql::{
            ast::parse_ast_node_full,
            ddl::{alt::AlterModel, crt::CreateModel, crt::CreateSpace, drop::DropModel},
            dml::{
                del::DeleteStatement,
                ins::InsertStatement,
                sel::{SelectAllStatement, SelectStatement},
                upd::UpdateStatement,
            },
            tests::lex_insecure,
        },
    };
    use std::{
        collections::BTreeMap,
        sync::{
            atomic::{AtomicBool, Ordering},
            Arc, Mutex,
        },
        thread,
    };

    /// The global state, with batches written by a thread of their own, as the server's task manager does (the
    /// inner one would write them on the thread that asks, which already holds the locks the writing needs).
    struct Shared {
        inner: TestGlobal,
        tasks: Mutex<Vec<Task<CriticalTask>>>,
    }
    unsafe impl Send for Shared {}
    unsafe impl Sync for Shared {}
    impl Shared {
        fn new(inner: TestGlobal) -> Self {
            Self {
                inner,
                tasks: Mutex::new(vec![]),
            }
        }
        /// writes the batches asked for so far
        fn work(&self) -> u64 {
            let now: Vec<_> = std::mem::take(&mut *self.tasks.lock().unwrap());
            let n = now.len() as u64;
            for t in now {
                if let CriticalTask::WriteBatch(id, count) = t.into_task() {
                    let models = self.inner.state().namespace().idx_models().read();
                    match models.get(&EntityIDRef::new(id.space(), id.model())) {
                        Some(m) if m.data().get_uuid() == id.uuid() => {
                            let mut drv = m.driver().batch_driver().lock();
                            drv.as_mut()
                                .unwrap()
                                .commit_with_ctx(StdModelBatch::new(m.data(), count), BatchStats::new())
                                .unwrap();
                        }
                        // dropped (and perhaps created again) since
                        _ => {}
                    }
                }
            }
            n
        }
    }
    impl GlobalInstanceLike for Shared {
        fn health(&self) -> &GlobalHealth {
            self.inner.health()
        }
        fn get_max_delta_size(&self) -> usize {
            self.inner.get_max_delta_size()
        }
        fn state(&self) -> &GlobalNS {
            self.inner.state()
        }
        fn initialize_model_driver(
            &self,
            space_name: &str,
            space_uuid: Uuid,
            model_name: &str,
            model_uuid: Uuid,
        ) -> RuntimeResult<FractalModelDriver> {
            self.inner
                .initialize_model_driver(space_name, space_uuid, model_name, model_uuid)
        }
        fn purge_model_driver(&self, space_name: &str, space_uuid: Uuid, model_name: &str, model_uuid: Uuid) {
            self.inner
                .purge_model_driver(space_name, space_uuid, model_name, model_uuid)
        }
        fn taskmgr_post_high_priority(&self, task: Task<CriticalTask>) {
            self.tasks.lock().unwrap().push(task)
        }
        fn taskmgr_post_standard_priority(&self, task: Task<GenericTask>) {
            self.inner.taskmgr_post_standard_priority(task)
        }
    }

    fn ins(g: &Shared, q: &str) -> QueryResult<()> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        dml::insert(g, parse_ast_node_full::<InsertStatement>(&t[1..]).unwrap())
    }
    fn upd(g: &Shared, q: &str) -> QueryResult<()> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        dml::update(g, parse_ast_node_full::<UpdateStatement>(&t[1..]).unwrap())
    }
    fn del(g: &Shared, q: &str) -> QueryResult<()> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        dml::delete(g, parse_ast_node_full::<DeleteStatement>(&t[1..]).unwrap())
    }
    fn sel(g: &Shared, q: &str) -> QueryResult<Vec<Datacell>> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        let mut r = vec![];
        dml::select_custom(g, parse_ast_node_full::<SelectStatement>(&t[1..]).unwrap(), |c| {
            r.push(c.clone())
        })?;
        Ok(r)
    }
    /// every row of a scan (a row is a vector of cells)
    fn scan(g: &Shared, q: &str, width: usize) -> QueryResult<Vec<Vec<Datacell>>> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        let mut cells: Vec<Datacell> = vec![];
        let n = dml::select_all(
            g,
            parse_ast_node_full::<SelectAllStatement>(&t[2..]).unwrap(),
            &mut cells,
            |_, _, _| {},
            |out, c, _| out.push(c.clone()),
        )?;
        assert_eq!(n * width, cells.len(), "SKYV: engine: a scan gave the wrong number of cells");
        Ok(cells.chunks(width).map(|c| c.to_vec()).collect())
    }
    fn drop_model(g: &Shared, q: &str) -> QueryResult<()> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        ModelData::transactional_exec_drop(g, parse_ast_node_full::<DropModel>(&t[2..]).unwrap()).map(|_| ())
    }
    fn alt(g: &Shared, q: &str) -> QueryResult<()> {
        let t = lex_insecure(q.as_bytes()).unwrap();
        ModelData::transactional_exec_alter(g, parse_ast_node_full::<AlterModel>(&t[2..]).unwrap())
    }
    fn create(g: &Shared, q: &str, space: bool) {
        let t = lex_insecure(q.as_bytes()).unwrap();
        let c: CreateModel = parse_ast_node_full(&t[2..]).unwrap();
        if space {
            let s = format!("create space {}", c.model_name.space());
            let st = lex_insecure(s.as_bytes()).unwrap();
            let c: CreateSpace = parse_ast_node_full(&st[2..]).unwrap();
            Space::transactional_exec_create(g, c).unwrap();
        }
        ModelData::transactional_exec_create(g, c).unwrap();
    }

    #[derive(Clone, Copy, PartialEq)]
    enum Pk {
        Str,
        Uint,
        Sint,
    }
    impl Pk {
        fn decl(self) -> &'static str {
            match self {
                Pk::Str => "string",
                Pk::Uint => "uint64",
                Pk::Sint => "sint64",
            }
        }
        fn lit(self, k: u64) -> String {
            match self {
                // of several lengths, one of them empty
                Pk::Str => match k {
                    0 => "''".to_owned(),
                    k => format!("'{}{k}'", "k".repeat(k as usize * 3)),
                },
                Pk::Uint => format!("{}", k * 0x1_0000_0001),
                Pk::Sint => format!("{}", -(k as i64 + 1) * 0x1_0000_0003),
            }
        }
    }

    fn one_write(r: &[Datacell]) {
        let v = r[0].str().to_owned();
        let num = r[1].try_uint();
        let want = v
            .strip_prefix('t')
            .and_then(|x| x.split_once('-'))
            .map(|(a, b)| a.parse::<u64>().unwrap() * 1000 + b.parse::<u64>().unwrap());
        assert_eq!(
            num, want,
            "SKYV: engine: a row mixes the cells of two writes: {v} {num:?}"
        );
    }

    /// all rows as (key, written value, list), read with select statements
    fn dump(g: &Shared, pk: Pk, nkeys: u64) -> BTreeMap<u64, String> {
        let mut out = BTreeMap::new();
        for k in 0..nkeys {
            match sel(g, &format!("select v, n, l from sp.m where k = {}", pk.lit(k))) {
                Ok(r) => {
                    out.insert(k, format!("{r:?}"));
                }
                Err(_) => {}
            }
        }
        out
    }

    fn round(rng: &mut Rng, obs: &Obs, no: u64) {
        let log = format!("skyv-{no}.db-tlog");
        let pk = *rng.pick(&[Pk::Str, Pk::Uint, Pk::Sint]);
        let nkeys = 3 + scale().min(20) / 2;
        let drops = rng.chance(3);
        let decl = format!(
            "create model sp.m(k: {}, v: string, null n: uint32, l: list {{ type: string }})",
            pk.decl()
        );
        let nthreads = 2 + rng.below(2);
        let nops = 3 + 2 * rng.below(2) + scale().min(50) * 2;
        let pressure = *rng.pick(&[1usize, 2, 5, usize::MAX]);
        let alter = rng.chance(2);
        let mut end;
        {
            let mut g = TestGlobal::new_with_driver_id(&log);
            g.set_max_data_pressure(pressure);
            let g = Arc::new(Shared::new(g));
            create(&g, &decl, true);
            for k in 0..nkeys {
                if rng.chance(2) {
                    ins(
                        &g,
                        &format!("insert into sp.m {{ k: {}, v: 't9-0', n: 9000, l: ['x'] }}", pk.lit(k)),
                    )
                    .unwrap();
                }
            }
            g.work();
            let done = Arc::new(AtomicBool::new(false));
            let flusher = {
                let (g, done) = (g.clone(), done.clone());
                thread::spawn(move || {
                    let mut n = 0;
                    loop {
                        let last = done.load(Ordering::Acquire);
                        n += g.work();
                        if last {
                            return n;
                        }
                        thread::yield_now();
                    }
                })
            };
            let mut hs = vec![];
            for th in 0..nthreads {
                let g = g.clone();
                let mut r = Rng::new(rng.next() ^ th);
                let alters = alter && th == 0;
                let drops = drops && th == 1;
                let decl = decl.clone();
                hs.push(thread::spawn(move || {
                    let mut n: BTreeMap<&str, u64> = BTreeMap::new();
                    for i in 0..nops {
                        if alters && i % 3 == 1 {
                            let f = i / 3 % 2;
                            let a = if (i / 6) % 2 == 0 {
                                format!("alter model sp.m add x{f} {{ type: string, nullable: true }}")
                            } else {
                                format!("alter model sp.m remove x{f}")
                            };
                            if alt(&g, &a).is_ok() {
                                *n.entry("alters").or_insert(0) += 1;
                            }
                            continue;
                        }
                        if drops && i == nops / 2 {
                            drop_model(&g, "drop model allow not empty sp.m").unwrap();
                            create(&g, &decl, false);
                            *n.entry("recreated").or_insert(0) += 1;
                        }
                        let k = pk.lit(r.below(nkeys));
                        // unless fields come and go, the statement names every field
                        let v = format!("t{th}-{i}");
                        match r.below(10) {
                            0..=3 => {
                                // a row that carries its writer in every cell
                                let q = format!(
                                    "insert into sp.m {{ k: {k}, v: '{v}', n: {}, l: ['{v}', '{v}'] }}",
                                    th * 1000 + i
                                );
                                match ins(&g, &q) {
                                    Ok(()) => *n.entry("inserted").or_insert(0) += 1,
                                    Err(_) => *n.entry("refused").or_insert(0) += 1,
                                }
                            }
                            4 | 5 => {
                                if del(&g, &format!("delete from sp.m where k = {k}")).is_ok() {
                                    *n.entry("deleted").or_insert(0) += 1;
                                }
                            }
                            6 | 7 => {
                                let q = format!(
                                    "update sp.m set v = '{v}', n = {} where k = {k}",
                                    th * 1000 + i
                                );
                                if upd(&g, &q).is_ok() {
                                    *n.entry("updated").or_insert(0) += 1;
                                }
                            }
                            8 => {
                                if upd(&g, &format!("update sp.m set l += '{v}' where k = {k}")).is_ok() {
                                    *n.entry("appended").or_insert(0) += 1;
                                }
                            }
                            _ => {
                                if let Ok(rows) = scan(&g, "select all v, n from sp.m limit 100", 2) {
                                    for r in rows {
                                        one_write(&r);
                                        *n.entry("scanned_rows").or_insert(0) += 1;
                                    }
                                }
                            }
                        }
                        // the cells of one row always belong to one write
                        match sel(&g, &format!("select v, n from sp.m where k = {k}")) {
                            Ok(r) => {
                                one_write(&r);
                                *n.entry("selected").or_insert(0) += 1;
                            }
                            Err(_) => *n.entry("absent").or_insert(0) += 1,
                        }
                    }
                    n
                }));
            }
            for h in hs {
                for (k, v) in h.join().unwrap() {
                    obs.add(k, v);
                }
            }
            done.store(true, Ordering::Release);
            obs.add("batches", flusher.join().unwrap());
            end = dump(&g, pk, nkeys);
            let len = g
                .state()
                .namespace()
                .with_model(EntityIDRef::new("sp", "m"), |m| Ok(m.primary_index().count()))
                .unwrap();
            assert_eq!(
                len,
                end.len(),
                "SKYV: engine: the number of rows is not the number of rows that can be read"
            );
        }
        // reopened twice: the same rows
        for _ in 0..2 {
            let g = Shared::new(TestGlobal::new_with_driver_id(&log));
            let again = dump(&g, pk, nkeys);
            assert_eq!(
                end, again,
                "SKYV: engine: the rows differ after the database was closed and opened again"
            );
            obs.add("reopened", 1);
            if rng.chance(2) {
                let k = pk.lit(0);
                let _ = del(&g, &format!("delete from sp.m where k = {k}"));
                let _ = ins(&g, &format!("insert into sp.m {{ k: {k}, v: 't0-7', n: 7, l: ['a'] }}"));
                end = dump(&g, pk, nkeys);
            }
        }
        obs.add("rounds", 1);
    }

    #[test]
    fn engine_rounds() {
        let obs = Obs::default();
        let mut rng = Rng::new(5);
        for i in 0..scale() {
            round(&mut rng, &obs, i);
        }
        obs.print("engine");
    }
}

/// rows are held by the index, by the delta queue and by queries: the last holder frees them
mod rows {
    use super::common::*;
    use crate::engine::{
        core::index::{DcFieldIndex, PrimaryIndexKey, Row},
        data::cell::Datacell,
        idx::mtchm::meta::TreeElement,
    };
    type DeltaVersion = <Row as TreeElement>::VEx1;
    use std::{sync::Barrier, thread};

    /// the engine hands rows to other threads inside its index and its delta queue
    struct Bag(Vec<Row>);
    unsafe impl Send for Bag {}
    impl Bag {
        fn open(self) -> Vec<Row> {
            self.0
        }
    }

    fn key(i: u64) -> String {
        format!("row-key-{i}-{}", "k".repeat((i % 40) as usize))
    }

    fn see(rows: &[Row], base: u64, kinds: &[u64], rng: &mut Rng) -> u64 {
        let mut n = 0;
        for (i, r) in rows.iter().enumerate() {
            let id = base + i as u64;
            let ok = match kinds[i] {
                0 => r.d_key().str() == Some(key(id).as_str()),
                1 => r.d_key().bin() == Some(key(id).as_bytes()),
                _ => r.d_key().uint() == Some(id),
            };
            assert!(ok, "SKYV: a row changed its key: {:?} for {id}", r.d_key());
            if rng.chance(2) {
                let d = r.d_data().read();
                assert!(
                    d.get_txn_revised().value_u64() == id && d.fields().len() == 0,
                    "SKYV: a row changed behind its owner's back: {id}"
                );
            }
            n += 1;
        }
        n
    }

    fn round(rng: &mut Rng, obs: &Obs) {
        let base = rng.below(1 << 30);
        let n = 1 + rng.below(3);
        let kinds: Vec<u64> = (0..n).map(|_| rng.below(3)).collect();
        let rows: Vec<Row> = (0..n)
            .map(|i| {
                let id = base + i;
                let k = match kinds[i as usize] {
                    0 => Datacell::new_str(key(id).into_boxed_str()),
                    1 => Datacell::new_bin(key(id).into_bytes().into_boxed_slice()),
                    _ => Datacell::new_uint_default(id),
                };
                let k = PrimaryIndexKey::try_from_dc(k).expect("SKYV: a valid key was refused");
                Row::new(k, DcFieldIndex::default(), DeltaVersion::genesis(), DeltaVersion::__new(id))
            })
            .collect();
        let threads = 2 + rng.below(2);
        let gate = Barrier::new(threads as usize);
        let mut parts: Vec<(Bag, Rng)> = (1..threads)
            .map(|_| {
                rng.next();
                (Bag(rows.clone()), rng.clone())
            })
            .collect();
        parts.push((Bag(rows), rng.clone()));
        let (gate, kinds) = (&gate, &kinds);
        thread::scope(|s| {
            for (rows, mut rng) in parts {
                s.spawn(move || {
                    let rows = rows.open();
                    gate.wait();
                    if rng.chance(3) {
                        let again = rows.clone();
                        drop(rows);
                        obs.add("seen", see(&again, base, kinds, &mut rng));
                    } else {
                        let n = see(&rows, base, kinds, &mut rng);
                        drop(rows);
                        if rng.chance(2) {
                            obs.add("seen", n);
                        }
                    }
                });
            }
        });
        obs.add("rows", n);
        obs.add("holders", n * threads);
    }

    #[test]
    fn row_rounds() {
        let obs = Obs::default();
        let mut rng = Rng::new(7);
        for _ in 0..6 * scale() {
            round(&mut rng, &obs);
        }
        obs.print("rows");
    }
}

/// the query lexer, the parser and the wire decoder on arbitrary bytes
mod input {
    use super::common::*;
    use crate::engine::ql::{
        ast::{traits::ASTNode, InplaceData, State},
        dcl::SysctlCommand,
        ddl::{
            alt::{AlterModel, AlterSpace},
            crt::{CreateModel, CreateSpace},
            drop::{DropModel, DropSpace},
            Inspect, Use,
        },
        dml::{
            del::DeleteStatement,
            ins::InsertStatement,
            sel::{SelectAllStatement, SelectStatement},
            upd::UpdateStatement,
        },
        lex::Token,
        tests::{lex_insecure, lex_secure},
    };

    fn p<'a, N: ASTNode<'a>>(t: &'a [Token<'a>]) -> bool {
        N::parse_from_state_hardened(&mut State::new(t, InplaceData::new())).is_ok()
    }
    /// parse it as every kind of statement, the way the executor would after its keywords
    fn parse_all(t: &[Token], obs: &Obs) {
        let mut ok = 0;
        if t.len() >= 2 {
            let r = &t[1..];
            ok += p::<InsertStatement>(r) as u64;
            ok += p::<UpdateStatement>(r) as u64;
            ok += p::<DeleteStatement>(r) as u64;
            ok += p::<SelectStatement>(r) as u64;
            ok += p::<Use>(r) as u64;
            ok += p::<Inspect>(r) as u64;
        }
        if t.len() >= 3 {
            let r = &t[2..];
            ok += p::<SelectAllStatement>(r) as u64;
            ok += p::<SysctlCommand>(&t[1..]) as u64;
            let id = matches!(r[0], Token::Ident(_));
            if id {
                ok += p::<AlterModel>(r) as u64;
                ok += p::<AlterSpace>(r) as u64;
            }
            if id || format!("{:?}", r[0]).contains("(If)") {
                ok += p::<CreateModel>(r) as u64;
                ok += p::<CreateSpace>(r) as u64;
                ok += p::<DropModel>(r) as u64;
                ok += p::<DropSpace>(r) as u64;
            }
        }
        obs.add(if ok > 0 { "parsed" } else { "not_parsed" }, 1);
    }

    const SEEDS: &[&str] = &[
        "create model sp.m(k: string, v: list { type: string }, null n: uint32) with { a: { b: 1, c: 'x' } }",
        "insert into sp.m('a', ['b', \"c\\n\\x41\"], -100)",
        "insert into sp.m { k: `a\\`b`, v: [[1, 2], []], n: null }",
        "select * from sp.m where k = 'abc'",
        "select all a, b from sp.m limit 100",
        "update sp.m set a += 1, b = \"x\" where k = -5",
        "delete from sp.m where k = 184467",
        "alter model sp.m add (f { type: uint8, nullable: true }, g { type: string })",
        "alter space sp with { env: { a: null, b: 1.5, c: true } }",
        "sysctl create user joe with { password: 'xyz' }",
        "inspect model sp.m",
        "drop space allow not empty sp",
    ];
    const PSEEDS: &[(&str, &[u8])] = &[
        ("select * from sp.m where k = ?", b"\x065\nabcde"),
        ("insert into sp.m(?, ?, ?)", b"\x0212\n\x03-7\n\x00"),
        ("update sp.m set a = ? where k = ?", b"\x01\x01\x053\n\x00\xff\x41"),
        ("insert into sp.m(?, ?)", b"\x043.25\n\x064\n\xf0\x9f\x98\x80"),
    ];
    fn mutate(rng: &mut Rng, s: &mut Vec<u8>) {
        for _ in 0..rng.below(4) {
            let n = s.len() as u64;
            match rng.below(7) {
                0 if n > 0 => {
                    let p = rng.below(n) as usize;
                    s[p] = rng.next() as u8;
                }
                1 if n > 0 => s.truncate(rng.below(n) as usize),
                2 => {
                    let p = rng.below(n + 1) as usize;
                    s.insert(p, *rng.pick(b"'\"`\\?{}[](),.:;*-+=!@\n\x00\xff0189eE\x80"));
                }
                3 if n > 0 => {
                    let p = rng.below(n) as usize;
                    s.remove(p);
                }
                4 if n > 2 => {
                    let a = rng.below(n) as usize;
                    let b = rng.below(n) as usize;
                    let piece = s[a.min(b)..a.max(b)].to_vec();
                    let p = rng.below(s.len() as u64 + 1) as usize;
                    s.splice(p..p, piece);
                }
                5 => {
                    let t = rng.pick(SEEDS).as_bytes();
                    let p = rng.below(t.len() as u64) as usize;
                    s.extend_from_slice(&t[p..]);
                }
                _ => {
                    let p = rng.below(n + 1) as usize;
                    s.splice(p..p, "99999999999999999999".bytes());
                }
            }
        }
    }
    #[test]
    fn inputs() {
        let obs = Obs::default();
        let mut rng = Rng::new(6);
        for _ in 0..150 * scale() {
            let mut s = rng.pick(SEEDS).as_bytes().to_vec();
            mutate(&mut rng, &mut s);
            // an exact allocation: reading past its end is a memory error
            let b = s.clone().into_boxed_slice();
            match lex_insecure(&b) {
                Ok(t) => {
                    obs.add("lexed", 1);
                    parse_all(&t, &obs);
                }
                Err(_) => obs.add("lex_errors", 1),
            }
            let (q, p) = rng.pick(PSEEDS);
            let mut q = q.as_bytes().to_vec();
            let mut p = p.to_vec();
            if rng.chance(3) {
                mutate(&mut rng, &mut q);
            }
            mutate(&mut rng, &mut p);
            let win = q.len();
            q.extend_from_slice(&p);
            let b = q.into_boxed_slice();
            match lex_secure(&b, win) {
                Ok(t) => {
                    obs.add("lexed_with_parameters", 1);
                    parse_all(&t, &obs);
                }
                Err(_) => obs.add("lex_errors", 1),
            };
        }
        obs.print("input");
    }
}
