//! P08-P10: shuffling, canonical forms, automorphisms.
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::sud;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Tf {
    pub tr: bool,
    pub rows: [usize; 9],
    pub cols: [usize; 9],
    pub dig: [u8; 9],
}

const P3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

pub fn line_arrs() -> &'static Vec<[usize; 9]> {
    static L: std::sync::OnceLock<Vec<[usize; 9]>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for p in P3 {
            for a in P3 {
                for b in P3 {
                    for c in P3 {
                        let q = [a, b, c];
                        let mut l = [0; 9];
                        for i in 0..9 {
                            l[i] = 3 * p[i / 3] + q[i / 3][i % 3];
                        }
                        v.push(l);
                    }
                }
            }
        }
        v
    })
}

fn transposed(g: &Grid) -> Grid {
    let mut o = [0; 81];
    for r in 0..9 {
        for c in 0..9 {
            o[r * 9 + c] = g[c * 9 + r];
        }
    }
    o
}

impl Tf {
    pub fn random(rng: &mut StdRng) -> Tf {
        let mut dig = [1, 2, 3, 4, 5, 6, 7, 8, 9];
        dig.shuffle(rng);
        Tf { tr: rng.gen(), rows: *line_arrs().choose(rng).unwrap(), cols: *line_arrs().choose(rng).unwrap(), dig }
    }
    fn src(&self, c: usize) -> usize {
        let (r, k) = (self.rows[c / 9], self.cols[c % 9]);
        if self.tr { k * 9 + r } else { r * 9 + k }
    }
    pub fn apply(&self, g: &Grid) -> Grid {
        let mut o = [0; 81];
        for c in 0..81 {
            let v = g[self.src(c)];
            o[c] = if v == 0 { 0 } else { self.dig[v as usize - 1] };
        }
        o
    }
    pub fn json(&self) -> Value {
        let l = |x: &[usize; 9]| x.iter().map(|v| v + 1).collect::<Vec<_>>();
        json!({"tr": self.tr, "rows": l(&self.rows), "cols": l(&self.cols), "dig": self.dig})
    }
}

/// Some transformation of a into b
pub fn find(a: &Grid, b: &Grid) -> Option<Tf> {
    fn rows(h: &Grid, b: &Grid, cols: &[usize; 9], used: &mut Vec<usize>, dig: [u8; 10], inv: [u8; 10]) -> Option<[u8; 10]> {
        let r = used.len();
        if r == 9 {
            return Some(dig);
        }
        for s in 0..9 {
            if used.contains(&s) {
                continue;
            }
            if r % 3 == 0 {
                if used.iter().any(|u| u / 3 == s / 3) {
                    continue;
                }
            } else if used[r - 1] / 3 != s / 3 {
                continue;
            }
            let (mut d, mut iv) = (dig, inv);
            let ok = (0..9).all(|k| {
                let x = h[s * 9 + cols[k]] as usize;
                let y = b[r * 9 + k];
                if x == 0 || y == 0 {
                    return x == 0 && y == 0;
                }
                if d[x] == 0 && iv[y as usize] == 0 {
                    d[x] = y;
                    iv[y as usize] = x as u8;
                }
                d[x] == y
            });
            if ok {
                used.push(s);
                if let Some(d) = rows(h, b, cols, used, d, iv) {
                    return Some(d);
                }
                used.pop();
            }
        }
        None
    }
    for tr in [false, true] {
        let h = if tr { transposed(a) } else { *a };
        for cols in line_arrs() {
            let mut used = vec![];
            if let Some(mut d) = rows(&h, b, cols, &mut used, [0; 10], [0; 10]) {
                let mut free: Vec<u8> = (1..=9).filter(|x| !d.contains(x)).collect();
                for x in 1..10 {
                    if d[x] == 0 {
                        d[x] = free.pop().unwrap();
                    }
                }
                let mut dig = [0; 9];
                dig.copy_from_slice(&d[1..]);
                let mut r = [0; 9];
                r.copy_from_slice(&used);
                return Some(Tf { tr, rows: r, cols: *cols, dig });
            }
        }
    }
    None
}

/// Reference canonical form and number of automorphisms of a solved grid
pub fn canon_ref(g: &Grid) -> (Grid, usize) {
    let mut best = [10u8; 81];
    let mut n = 0;
    for tr in [false, true] {
        let h = if tr { transposed(g) } else { *g };
        for band in 0..3 {
            for p in P3 {
                let r: Vec<usize> = p.iter().map(|x| band * 3 + x).collect();
                for cols in line_arrs() {
                    let mut lab = [0u8; 10];
                    for k in 0..9 {
                        lab[h[r[0] * 9 + cols[k]] as usize] = k as u8 + 1;
                    }
                    let row = |r: usize| -> [u8; 9] {
                        let mut o = [0; 9];
                        for k in 0..9 {
                            o[k] = lab[h[r * 9 + cols[k]] as usize];
                        }
                        o
                    };
                    if lab[h[r[1] * 9 + cols[0]] as usize] > best[9] || row(r[1])[..] > best[9..18] {
                        continue;
                    }
                    let mut o = [0u8; 81];
                    for i in 0..3 {
                        o[i * 9..][..9].copy_from_slice(&row(r[i]));
                    }
                    let mut rest: Vec<Vec<[u8; 9]>> = (0..3)
                        .filter(|&b| b != band)
                        .map(|b| {
                            let mut v: Vec<[u8; 9]> = (0..3).map(|i| row(b * 3 + i)).collect();
                            v.sort();
                            v
                        })
                        .collect();
                    rest.sort();
                    for (i, x) in rest.iter().flatten().enumerate() {
                        o[27 + i * 9..][..9].copy_from_slice(x);
                    }
                    if o < best {
                        best = o;
                        n = 0;
                    }
                    if o == best {
                        n += 1;
                    }
                }
            }
        }
    }
    (best, n)
}

/// Random solved grid that t maps to itself
pub fn fixed_grid(t: &Tf, rng: &mut StdRng, mut nodes: usize) -> Option<Grid> {
    let mut next = [0usize; 81];
    for c in 0..81 {
        next[t.src(c)] = c;
    }
    fn set(g: &mut Grid, next: &[usize; 81], t: &Tf, c: usize, d: u8) -> Option<Vec<usize>> {
        let (mut c, mut d) = (c, d);
        let mut trail = vec![];
        loop {
            if g[c] != 0 {
                if g[c] == d {
                    return Some(trail);
                }
                break;
            }
            if geo().peers[c].iter().any(|&p| g[p] == d) {
                break;
            }
            g[c] = d;
            trail.push(c);
            c = next[c];
            d = t.dig[d as usize - 1];
        }
        for c in trail {
            g[c] = 0;
        }
        None
    }
    fn go(g: &mut Grid, next: &[usize; 81], t: &Tf, rng: &mut StdRng, nodes: &mut usize) -> bool {
        if *nodes == 0 {
            return false;
        }
        *nodes -= 1;
        let e: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
        if e.is_empty() {
            return true;
        }
        let c = *e.iter().min_by_key(|&&c| mask(g, c).count_ones()).unwrap();
        let m = mask(g, c);
        let mut ds: Vec<u8> = (1..=9).filter(|d| m >> d & 1 == 1).collect();
        ds.shuffle(rng);
        for d in ds {
            if let Some(tr) = set(g, next, t, c, d) {
                if go(g, next, t, rng, nodes) {
                    return true;
                }
                for c in tr {
                    g[c] = 0;
                }
            }
        }
        false
    }
    let mut g = [0; 81];
    if go(&mut g, &next, t, rng, &mut nodes) && t.apply(&g) == g {
        Some(g)
    } else {
        None
    }
}

/// transformations that many grids admit as automorphisms
fn simple_tf(rng: &mut StdRng) -> Tf {
    let chute = |rng: &mut StdRng| -> [usize; 9] {
        let p = match rng.gen_range(0..4) {
            0 => [1, 2, 0],
            1 => [1, 0, 2],
            _ => [0, 1, 2],
        };
        let q = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [2, 1, 0]];
        let mode = rng.gen_range(0..5);
        let same = q[rng.gen_range(0..5)];
        let mut l = [0; 9];
        for b in 0..3 {
            let x = match mode {
                0 | 1 => [0, 1, 2],
                2 => same,
                3 => q[rng.gen_range(0..3)],
                _ => q[rng.gen_range(0..5)],
            };
            for i in 0..3 {
                l[b * 3 + i] = 3 * p[b] + x[i];
            }
        }
        l
    };
    let digs: [[u8; 9]; 6] = [
        [1, 2, 3, 4, 5, 6, 7, 8, 9],
        [2, 3, 1, 5, 6, 4, 8, 9, 7],
        [2, 3, 1, 5, 6, 4, 7, 8, 9],
        [2, 1, 4, 3, 6, 5, 8, 7, 9],
        [2, 1, 4, 3, 6, 5, 7, 8, 9],
        [2, 3, 4, 1, 6, 7, 8, 5, 9],
    ];
    Tf { tr: rng.gen_bool(0.4), rows: chute(rng), cols: chute(rng), dig: *digs.choose(rng).unwrap() }
}

pub const SYMMETRIC: &[&str] = &[
    "123456789456789123789123456231564897564897231897231564312645978645978312978312645",
    "123456789456789123789123456234567891567891234891234567345678912678912345912345678",
    "123456789457189326698327451231645897745891632986732145312564978574918263869273514",
];

/// grids with many automorphisms, one per class (found by search; of 27 and more all classes there are)
pub fn classes() -> &'static [(usize, Grid)] {
    static ALL: std::sync::OnceLock<Vec<(usize, Grid)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let f = |l: &str| l.split_once(' ').map(|(n, g)| (n.parse().unwrap(), parse(g)));
        include_str!("classes.txt").lines().filter_map(f).collect()
    })
}

pub fn symmetric_grid(rng: &mut StdRng) -> Grid {
    if rng.gen_bool(0.5) {
        // all numbers of automorphisms equally often
        let mut orders: Vec<usize> = classes().iter().map(|c| c.0).collect();
        orders.dedup();
        let n = *orders.choose(rng).unwrap();
        let of: Vec<&Grid> = classes().iter().filter(|c| c.0 == n).map(|c| &c.1).collect();
        return shuffle_grid(of.choose(rng).unwrap(), rng);
    }
    loop {
        if rng.gen_bool(0.1) {
            let g = parse(SYMMETRIC.choose(rng).unwrap());
            if full_valid(&g) {
                return shuffle_grid(&g, rng);
            }
        }
        let t = simple_tf(rng);
        if let Some(g) = fixed_grid(&t, rng, 60) {
            return shuffle_grid(&g, rng);
        }
    }
}

fn unique_puzzle(sol: &Grid, rng: &mut StdRng) -> Grid {
    let m = minimal_puzzle(sol, rng);
    let missing = 81 - n_clues(&m);
    let n = match rng.gen_range(0..4) {
        0 => 0,
        1 => rng.gen_range(0..=missing),
        2 => missing - rng.gen_range(0..6),
        _ => rng.gen_range(1..12),
    };
    add_clues(&m, sol, n, rng)
}

fn any_grid(rng: &mut StdRng, i: usize) -> Grid {
    match i % 6 {
        0 => random_solved(rng),
        1 => symmetric_grid(rng),
        2 => {
            let s = random_solved(rng);
            unique_puzzle(&s, rng)
        }
        3 => {
            let s = symmetric_grid(rng);
            unique_puzzle(&s, rng)
        }
        4 => {
            let v = special_grids(rng);
            v[rng.gen_range(0..v.len())]
        }
        _ => random_grid(rng),
    }
}

fn shuf_event(a: &Grid, b: &Grid) -> Value {
    let t = find(a, b);
    match t {
        Some(t) => json!({"k":"shuf","a":gv(a),"b":gv(b),"has":true,"t":t.json()}),
        None => json!({"k":"shuf","a":gv(a),"b":gv(b),"has":false,"t":0}),
    }
}

fn shuffles(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = ctx.part(if ctx.thorough { 12000 } else { 1500 });
    for i in 0..n {
        let g = any_grid(rng, i);
        let mut s = sud(&g);
        // histories: several shuffles of one object
        let steps = if i % 5 == 0 { 4 } else { 1 };
        let mut before = g;
        for j in 0..steps {
            let inp = || json!(line(&before));
            let after = if (i + j) % 2 == 0 {
                let s0 = s;
                let mut same = true;
                let r = ctx.call("shuffled", &inp, || {
                    let r = s.shuffled();
                    same = s == s0;
                    r
                });
                match r {
                    Some(r) => s = r,
                    None => break,
                }
                s.to_bytes()
            } else {
                if ctx.call("shuffle", &inp, || s.shuffle()).is_none() {
                    break;
                }
                s.to_bytes()
            };
            ctx.emit(shuf_event(&before, &after));
            ctx.stat(&format!("shuffle.clues{}", n_clues(&after) / 27), 1);
            if i % 200 == 7 && n_clues(&after) > 60 {
                let mut x = after;
                // two rows of different bands exchanged
                for k in 0..9 {
                    x.swap(k, 27 + k);
                }
                if x != after && find(&before, &x).is_none() {
                    ctx.canary(shuf_event(&before, &x));
                }
                let mut x = after;
                let c = (0..81).find(|&c| x[c] != 0).unwrap();
                x[c] = 0;
                ctx.canary(shuf_event(&before, &x));
            }
            before = after;
        }
    }
    if ctx.shard == 0 {
        let n = if ctx.thorough { 60_000 } else { 20_000 };
        let mut g = random_solved(rng);
        while canon_ref(&g).1 != 1 {
            g = random_solved(rng);
        }
        let s = sud(&g);
        let mut ts = vec![];
        let mut bs = vec![];
        for i in 0..n {
            let inp = || json!(line(&g));
            let r = ctx.call("shuffle", &inp, || {
                if i % 2 == 0 {
                    s.shuffled()
                } else {
                    let mut x = s;
                    x.shuffle();
                    x
                }
            });
            let Some(r) = r else { continue };
            let b = r.to_bytes();
            match find(&g, &b) {
                Some(t) => {
                    ts.push(t);
                    bs.push(b);
                }
                None => ctx.emit(shuf_event(&g, &b)),
            }
        }
        // expected repetitions among m choices: n^2/2m
        let nn = n as f64;
        let lim = |m: f64| {
            let x = nn - m * (1.0 - (-nn / m).exp());
            (x + 10.0 * x.sqrt() + 5.0) as u64
        };
        let ev = |ts: &[Tf], bs: &[Grid]| {
            json!({"k":"variety","a":gv(&g),"ts":ts.iter().map(|t| t.json()).collect::<Vec<_>>(),
            "bs":bs.iter().map(gv).collect::<Vec<_>>(),"maxrepd":lim(362_880.0),"maxrepl":lim(2.0*6f64.powi(8))})
        };
        ctx.stat("variety.shuffles", ts.len() as u64);
        if !ts.is_empty() {
            let e = ev(&ts, &bs);
            ctx.emit(e);
            // without any shuffle that keeps the first band first and transposes
            let keep: Vec<usize> = (0..ts.len()).filter(|&i| !(ts[i].tr && ts[i].rows[0] < 3)).collect();
            let (t2, b2): (Vec<Tf>, Vec<Grid>) = keep.iter().map(|&i| (ts[i].clone(), bs[i])).unzip();
            let e = ev(&t2, &b2);
            ctx.canary(e);
        }
    }
}

fn put(e: &mut Map<String, Value>, g: &Grid) -> usize {
    let sols = solve(g, 2);
    let exact = sols.len() < 2;
    e.insert("exact".into(), json!(exact));
    e.insert("cert".into(), if exact { certificate(g) } else { json!([2]) });
    e.insert("wit".into(), if exact { json!([]) } else { json!(sols.iter().map(gv).collect::<Vec<_>>()) });
    sols.len()
}

fn canon_event(ctx: &mut Ctx, g: &Grid) -> Option<(Map<String, Value>, Grid, usize)> {
    let inp = || json!(line(g));
    let r = ctx.call("canonicalized", &inp, || sud(g).canonicalized())?;
    let mut e = Map::new();
    e.insert("k".into(), json!("canon"));
    e.insert("g".into(), gv(g));
    e.insert("none".into(), json!(r.is_none()));
    let (res, count) = r.map(|(s, n)| (s.to_bytes(), n)).unwrap_or(([0; 81], 0));
    e.insert("res".into(), gv(&res));
    e.insert("count".into(), json!((count as u64).min(1 << 30)));
    put(&mut e, g);
    Some((e, res, count))
}

fn canonical(ctx: &mut Ctx, rng: &mut StdRng, prop: &str) {
    let n = ctx.part(if ctx.thorough { 4000 } else { 420 });
    let list: Vec<Grid> = classes().iter().rev().enumerate().filter(|x| ctx.mine(x.0)).map(|x| x.1 .1).collect();
    for i in 0..n {
        let g = if let (true, Some(c)) = (ctx.thorough || i < 16, list.get(i)) {
            ctx.stat("known classes", 1);
            shuffle_grid(c, rng)
        } else if prop == "P10" {
            match i % 4 {
                0 | 1 => symmetric_grid(rng),
                2 => {
                    let s = symmetric_grid(rng);
                    unique_puzzle(&s, rng)
                }
                _ => random_solved(rng),
            }
        } else {
            any_grid(rng, i)
        };
        let Some((e, res, count)) = canon_event(ctx, &g) else { continue };
        ctx.stat(&format!("automorphisms.{count}"), 1);
        ctx.stat(if n_clues(&g) == 81 { "solved" } else if e["none"] == json!(true) { "none" } else { "puzzle" }, 1);
        ctx.emit(Value::Object(e.clone()));
        if i % 40 == 11 || (i % 40 < 20 && e["none"] == json!(true) && i % 3 == 0) {
            let mut c = e.clone();
            if e["none"] == json!(true) {
                c.insert("none".into(), json!(false));
            } else if i % 2 == 0 {
                let mut x = res;
                for k in 0..9 {
                    x.swap(27 + k, 36 + k);
                }
                c.insert("res".into(), gv(&x));
            } else {
                c.insert("count".into(), json!(count + 1));
            }
            if e["none"] != json!(true) || n_clues(&g) < 81 {
                ctx.canary(Value::Object(c));
            }
        }
    }
    // pairs of equivalent grids, and the reference's opinion on more
    let n = ctx.part(if ctx.thorough { 60_000 } else { 5_000 });
    for i in 0..n {
        let a = match i % 4 {
            0 => random_solved(rng),
            1 if i % 16 != 1 => random_solved(rng),
            _ => symmetric_grid(rng),
        };
        let t = Tf::random(rng);
        let b = t.apply(&a);
        let inp = || json!([line(&a), line(&b)]);
        let r = ctx.call("canonicalized", &inp, || (sud(&a).canonicalized(), sud(&b).canonicalized()));
        let Some((x, y)) = r else { continue };
        let (Some((ra, ca)), Some((rb, cb))) = (x, y) else {
            if let Some((e, _, _)) = canon_event(ctx, &a) {
                ctx.emit(Value::Object(e));
            }
            if let Some((e, _, _)) = canon_event(ctx, &b) {
                ctx.emit(Value::Object(e));
            }
            continue;
        };
        let e = json!({"k":"class","a":gv(&a),"b":gv(&b),"t":t.json(),"ra":gv(&ra.to_bytes()),"rb":gv(&rb.to_bytes()),
            "ca":(ca as u64).min(1<<30),"cb":(cb as u64).min(1<<30)});
        ctx.prefiltered += 1;
        if i % 8 == 3 {
            ctx.emit(e);
        } else if ra != rb || ca != cb {
            ctx.suspicious += 1;
            ctx.emit(e);
        }
        let (r, c) = canon_ref(&a);
        ctx.stat(&format!("reference.automorphisms.{c}"), 1);
        if (r, c) != (ra.to_bytes(), ca) {
            ctx.suspicious += 1;
            if ctx.suspicious < 30 {
                if let Some((e, _, _)) = canon_event(ctx, &a) {
                    ctx.emit(Value::Object(e));
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(match prop {
        "P08" => 80,
        "P09" => 90,
        _ => 100,
    });
    match prop {
        "P08" => shuffles(ctx, &mut rng),
        _ => canonical(ctx, &mut rng, prop),
    }
}
