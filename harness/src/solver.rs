//! P01-P04: enumeration, verdicts, buffers, is_solved.
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use sudoku::Sudoku;

pub fn sud(g: &Grid) -> Sudoku {
    // P14 judges the conversions; the other properties do not depend on any single one of them
    let l: String = g.iter().map(|&d| (b'0' + d) as char).collect();
    Sudoku::from_bytes(*g)
        .ok()
        .or_else(|| Sudoku::from_str_line(&l).ok())
        .or_else(|| Sudoku::from_str_block_permissive(&g.chunks(9).map(|r| r.iter().map(|&d| (b'0' + d) as char).collect::<String>() + "\n").collect::<String>()).ok())
        .expect("harness: invalid grid")
}

/// distinct byte arrays, referred to by 1-based index
pub struct Tab {
    pub v: Vec<Grid>,
    m: HashMap<Grid, usize>,
}
impl Tab {
    pub fn new() -> Tab {
        Tab { v: vec![], m: HashMap::new() }
    }
    pub fn ix(&mut self, g: &Grid) -> usize {
        if let Some(&i) = self.m.get(g) {
            return i;
        }
        self.v.push(*g);
        self.m.insert(*g, self.v.len());
        self.v.len()
    }
    pub fn json(&self) -> Value {
        Value::Array(self.v.iter().map(gv).collect())
    }
}

const CAP: u64 = (1 << 31) - 1;
pub fn lim_json(l: usize) -> Value {
    json!((l as u64).min(CAP))
}

/// What the reference knows about the number of solutions
pub struct Known {
    pub exact: bool,
    pub sols: Vec<Grid>,
}

pub fn known(g: &Grid, cap: usize) -> Known {
    let sols = solve(g, cap);
    Known { exact: sols.len() < cap, sols }
}

impl Known {
    fn total(&self) -> usize {
        self.sols.len()
    }
    pub fn put(&self, g: &Grid, tab: &mut Tab, e: &mut serde_json::Map<String, Value>, need: usize) {
        e.insert("exact".into(), json!(self.exact));
        if self.exact {
            e.insert("cert".into(), certificate(g));
            e.insert("wit".into(), json!([]));
        } else {
            e.insert("cert".into(), json!([2]));
            let w: Vec<usize> = self.sols.iter().take(need).map(|s| tab.ix(s)).collect();
            e.insert("wit".into(), json!(w));
        }
    }
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(1);
    if prop == "P04" {
        return solved(ctx, &mut rng);
    }
    let mut grids = special_grids(&mut ctx.rng(1));
    let mut i = 0;
    grids.retain(|_| { i += 1; ctx.mine(i) });
    for _ in 0..ctx.part(if ctx.thorough { 20000 } else { 1800 }) {
        grids.push(random_grid(&mut rng));
    }
    for g in &grids {
        event(ctx, prop, g, &mut rng, true);
    }
    for _ in 0..ctx.part(if ctx.thorough { 300 } else { 28 }) {
        big(ctx, prop, &mut rng);
    }
    // volume: compare with the reference, keep what looks suspicious for the specification to judge
    let n_vol = ctx.part(if ctx.thorough { 6_000_000 } else { 60_000 });
    let budget = if ctx.thorough { 1200.0 } else { 20.0 };
    let t0 = ctx.elapsed();
    for i in 0..n_vol {
        if ctx.elapsed() - t0 > budget || ctx.suspicious > 40 {
            break;
        }
        let g = if i % 3 == 0 { shuffle_grid(grids.choose(&mut rng).unwrap(), &mut rng) } else { random_grid(&mut rng) };
        ctx.prefiltered += 1;
        event(ctx, prop, &g, &mut rng, false);
    }
}

fn event(ctx: &mut Ctx, prop: &str, g: &Grid, rng: &mut StdRng, always: bool) {
    match prop {
        "P01" => enumeration(ctx, g, rng, always),
        "P02" => verdict(ctx, g, rng, always),
        "P03" => buffer(ctx, g, rng, always),
        _ => unreachable!(),
    }
}

fn limits(rng: &mut StdRng, k: &Known) -> Vec<usize> {
    let t = k.total();
    let mut v = vec![0, 1, 2];
    if k.exact {
        v.extend([t, t + 1, usize::MAX]);
        if t > 3 {
            v.push(t - 1);
            v.push(rng.gen_range(2..t));
        }
    } else {
        v.push(rng.gen_range(2..=t));
        v.push(t);
    }
    v.sort();
    v.dedup();
    v
}

fn caps(ctx: &Ctx, rng: &mut StdRng, always: bool) -> usize {
    let c: &[usize] = if !always { &[3, 10, 40] } else if ctx.thorough { &[5, 40, 400, 3000] } else { &[4, 20, 60, 250] };
    *c.choose(rng).unwrap()
}

fn enumeration(ctx: &mut Ctx, g: &Grid, rng: &mut StdRng, always: bool) {
    let k = known(g, caps(ctx, rng, always));
    let lims = limits(rng, &k);
    let mut tab = Tab::new();
    let mut res = vec![];
    let mut bad = false;
    for &lim in &lims {
        let inp = || json!({"grid": line(g), "limit": lim_json(lim)});
        match ctx.call("solutions_up_to", &inp, || sud(g).solutions_up_to(lim)) {
            Some(v) => {
                let ix: Vec<usize> = v.iter().map(|s| tab.ix(&s.to_bytes())).collect();
                let mut u = ix.clone();
                u.sort();
                u.dedup();
                if u.len() != ix.len() || ix.len() != lim.min(k.total()) {
                    bad = true;
                }
                res.push((lim, ix));
            }
            None => return,
        }
    }
    bad |= tab.v.iter().any(|s| !full_valid(s) || (0..81).any(|c| g[c] != 0 && g[c] != s[c]));
    ctx.stat(if !k.exact { "many" } else { ["none", "one", "several"][k.total().min(2)] }, 1);
    if bad {
        ctx.suspicious += 1;
    }
    if !(always || bad) {
        return;
    }
    let mut e = serde_json::Map::new();
    let need = lims.iter().cloned().max().unwrap();
    k.put(g, &mut tab, &mut e, need);
    e.insert("k".into(), json!("enum"));
    e.insert("g".into(), gv(g));
    e.insert("lims".into(), Value::Array(lims.iter().map(|&l| lim_json(l)).collect()));
    e.insert("res".into(), json!(res.iter().map(|r| &r.1).collect::<Vec<_>>()));
    e.insert("tab".into(), tab.json());
    if always && ctx.n % 50 == 7 {
        // a repeated solution, one solution less
        let mut c = Value::Object(e.clone());
        let n = c["res"].as_array().unwrap().len() - 1;
        let r = c["res"][n].as_array_mut().unwrap();
        if let (Some(x), true) = (r.pop(), rng.gen()) {
            r.push(x.clone());
            r.push(x);
        }
        if k.total() > 0 {
            ctx.canary(c);
        }
    }
    ctx.emit(Value::Object(e));
}

fn verdict(ctx: &mut Ctx, g: &Grid, rng: &mut StdRng, always: bool) {
    let k = known(g, caps(ctx, rng, always).min(60));
    let lims = limits(rng, &k);
    let s = sud(g);
    let inp = || json!({"grid": line(g)});
    let mut counts = vec![];
    for &lim in &lims {
        let inp = || json!({"grid": line(g), "limit": lim_json(lim)});
        match ctx.call("solutions_count_up_to", &inp, || s.solutions_count_up_to(lim)) {
            Some(n) => counts.push(n),
            None => return,
        }
    }
    let r = (
        ctx.call("is_uniquely_solvable", &inp, || s.is_uniquely_solvable()),
        ctx.call("some_solution", &inp, || s.some_solution()),
        ctx.call("solution", &inp, || s.solution()),
    );
    let (uniq, some, sol) = match r {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return,
    };
    let t = k.total();
    let mut bad = lims.iter().zip(&counts).any(|(&l, &n)| n != l.min(t)) || uniq != (t == 1) || some.is_some() != (t > 0) || sol.is_some() != (t == 1);
    for s in [some, sol].iter().flatten() {
        let s = s.to_bytes();
        bad |= !full_valid(&s) || (0..81).any(|c| g[c] != 0 && g[c] != s[c]);
    }
    ctx.stat(if !k.exact { "many" } else { ["none", "one", "several"][t.min(2)] }, 1);
    if bad {
        ctx.suspicious += 1;
    }
    if !(always || bad) {
        return;
    }
    let mut tab = Tab::new();
    let some = some.map_or(0, |s| tab.ix(&s.to_bytes()));
    let sol = sol.map_or(0, |s| tab.ix(&s.to_bytes()));
    let mut e = serde_json::Map::new();
    let need = lims.iter().cloned().max().unwrap();
    k.put(g, &mut tab, &mut e, need);
    e.insert("k".into(), json!("verdict"));
    e.insert("g".into(), gv(g));
    e.insert("lims".into(), Value::Array(lims.iter().map(|&l| lim_json(l)).collect()));
    e.insert("counts".into(), Value::Array(counts.iter().map(|&l| lim_json(l)).collect()));
    e.insert("uniq".into(), json!(uniq));
    e.insert("some".into(), json!(some));
    e.insert("sol".into(), json!(sol));
    e.insert("tab".into(), tab.json());
    if always && ctx.n % 50 == 7 {
        let mut c = Value::Object(e.clone());
        match rng.gen_range(0..4) {
            0 => c["uniq"] = json!(!uniq),
            1 => c["counts"][1] = json!(counts[1] ^ 1),
            2 if t > 0 => c["some"] = json!(0),
            _ => c["sol"] = if t == 1 { json!(0) } else { tab.ix(g); json!(tab.ix(g)) },
        }
        c["tab"] = tab.json();
        ctx.canary(c);
    }
    ctx.emit(Value::Object(e));
}

fn buffer(ctx: &mut Ctx, g: &Grid, rng: &mut StdRng, always: bool) {
    let k = known(g, caps(ctx, rng, always).min(60));
    let lims = limits(rng, &k);
    let s = sud(g);
    let mut tab = Tab::new();
    let mut cases = vec![];
    let mut bad = false;
    let t = k.total();
    // previous contents: distinct, recognizable and no valid grids
    let mut lens = vec![0usize, 1, 2, t, t + 2, 7];
    lens.shuffle(rng);
    let n_cases = if always { 8 } else { 3 };
    for i in 0..n_cases {
        let lim = *lims.choose(rng).unwrap();
        let len = if i == 0 { t + 1 } else { *lens.choose(rng).unwrap() };
        let mut buf: Vec<[u8; 81]> = (0..len).map(|i| { let mut b = [200u8; 81]; b[0] = (i % 250) as u8; b[80] = 77; b }).collect();
        let old = buf.clone();
        let inp = || json!({"grid": line(g), "limit": lim_json(lim), "buffer_len": len});
        let ret = match ctx.call("solutions_up_to_buffer", &inp, || s.solutions_up_to_buffer(&mut buf, lim)) {
            Some(n) => n,
            None => return,
        };
        let n = ret.min(len);
        bad |= ret != lim.min(t);
        let set: std::collections::HashSet<_> = buf[..n].iter().collect();
        bad |= set.len() != n;
        for (i, b) in buf.iter().enumerate() {
            bad |= if i < n { !full_valid(b) || (0..81).any(|c| g[c] != 0 && g[c] != b[c]) } else { *b != old[i] };
        }
        let oi: Vec<usize> = old.iter().map(|b| tab.ix(b)).collect();
        let ni: Vec<usize> = buf.iter().map(|b| tab.ix(b)).collect();
        cases.push(json!({"lim": lim_json(lim), "ret": lim_json(ret), "old": oi, "new": ni}));
    }
    if bad {
        ctx.suspicious += 1;
    }
    if !(always || bad) {
        return;
    }
    let mut e = serde_json::Map::new();
    let need = lims.iter().cloned().max().unwrap();
    k.put(g, &mut tab, &mut e, need);
    e.insert("k".into(), json!("buffer"));
    e.insert("g".into(), gv(g));
    e.insert("cases".into(), json!(cases));
    e.insert("tab".into(), tab.json());
    if always && ctx.n % 50 == 7 {
        let mut c = Value::Object(e.clone());
        let r = c["cases"][0]["ret"].as_u64().unwrap() as usize;
        // t + 1 slots: the one after the result was overwritten, or the last result is missing
        if rng.gen() || r == 0 {
            let x = tab.ix(&[66; 81]);
            c["cases"][0]["new"][r] = json!(x);
        } else {
            c["cases"][0]["new"][r - 1] = c["cases"][0]["old"][r - 1].clone();
        }
        c["tab"] = tab.json();
        ctx.canary(c);
    }
    ctx.emit(Value::Object(e));
}

/// A puzzle g, a house and g2 = g with the empty cells of the house filled by digits which g does not contain:
/// g has (number of empty cells)! times the solutions of g2
fn interchangeable(rng: &mut StdRng) -> (Grid, usize, Grid) {
    let sol = random_solved(rng);
    let h = rng.gen_range(0..27);
    let house = house_cells()[h];
    let k = *[4, 5, 5, 6, 6, 7, 7, 7, 8, 8, 9].choose(rng).unwrap();
    let mut digits: Vec<u8> = (1..=9).collect();
    digits.shuffle(rng);
    let free = &digits[..k];
    let p = *[1.0, 0.98, 0.9, 0.6].choose(rng).unwrap();
    let g: Grid = std::array::from_fn(|c| {
        let keep = !free.contains(&sol[c]) && (house.contains(&c) || rng.gen_bool(p));
        if keep { sol[c] } else { 0 }
    });
    let mut g2 = g;
    house.iter().for_each(|&c| g2[c] = sol[c]);
    (g, h, g2)
}

fn big(ctx: &mut Ctx, prop: &str, rng: &mut StdRng) {
    let max = if cfg!(debug_assertions) { 70_000 } else if ctx.thorough { 20_000_000 } else { 1_100_000 };
    let (g, h, g2) = interchangeable(rng);
    let k = known(&g2, if ctx.thorough { 500 } else { 150 });
    let n: usize = (1..=house_cells()[h].iter().filter(|&&c| g[c] == 0).count()).product();
    let t = n * k.total();
    let mut lims: Vec<usize> = [255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 5000, 9999, 10000, 20000, 32767, 32768, 50000, 65535, 65536, 65537, 100_000, 131_073, 200_000,
        362_880, 500_000, 999_999, 1_000_000, 1_048_577].iter().cloned().filter(|&l| l <= max).collect();
    lims.extend((0..4).map(|_| 10f64.powf(rng.gen_range(2.0..6.0)) as usize));
    if ctx.thorough && rng.gen_bool(0.1) {
        lims.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 10_000_000]);
    }
    lims.retain(|&l| l <= t || k.exact && l <= 2 * t);
    if k.exact && t <= max {
        lims.extend([t - 1, t, t + 1, usize::MAX]);
    }
    lims.shuffle(rng);
    lims.truncate(6);
    if lims.is_empty() {
        return;
    }
    let lists = 2_000_000; // more are only counted
    let s = sud(&g);
    let mut tab = Tab::new();
    let mut res = vec![];
    let right = |s: &Grid| full_valid(s) && (0..81).all(|c| g[c] == 0 || g[c] == s[c]);
    for &lim in &lims {
        let n = lim.min(t);
        // entries that look wrong and a sample of the others
        let mut digest = |l: &[Grid], tab: &mut Tab, rng: &mut StdRng| {
            let mut some: Vec<usize> = (0..l.len()).filter(|&i| !right(&l[i])).take(3).collect();
            if !l.is_empty() {
                some.extend((0..8).map(|_| rng.gen_range(0..l.len())));
                some.extend([0, l.len() - 1]);
            }
            let some: Vec<usize> = some.iter().map(|&i| tab.ix(&l[i])).collect();
            let mut o: Vec<&Grid> = l.iter().collect();
            o.sort_unstable();
            o.dedup();
            (o.len(), some)
        };
        let inp = || json!({"grid": line(&g), "limit": lim_json(lim)});
        match prop {
            "P01" => {
                if n > lists {
                    continue;
                }
                let v = match ctx.call("solutions_up_to", &inp, || s.solutions_up_to(lim)) {
                    Some(v) => v,
                    None => return,
                };
                let v: Vec<Grid> = v.iter().map(|s| s.to_bytes()).collect();
                let (d, some) = digest(&v, &mut tab, rng);
                res.push(json!({"op": "list", "lim": lim_json(lim), "n": v.len(), "distinct": d, "some": some}));
            }
            "P02" => match ctx.call("solutions_count_up_to", &inp, || s.solutions_count_up_to(lim)) {
                Some(c) => res.push(json!({"op": "count", "lim": lim_json(lim), "n": lim_json(c)})),
                None => return,
            },
            _ => {
                let len = *[0, 0, 1, n / 2, n - 1, n, n + 1, n + 2, rng.gen_range(0..n + 300)].choose(rng).unwrap();
                if len > lists {
                    continue;
                }
                let mut buf: Vec<Grid> = (0..len).map(|i| { let mut b = [200u8; 81]; b[0] = (i % 250) as u8; b[80] = 77; b }).collect();
                let inp = || json!({"grid": line(&g), "limit": lim_json(lim), "buffer_len": len});
                let r = match ctx.call("solutions_up_to_buffer", &inp, || s.solutions_up_to_buffer(&mut buf, lim)) {
                    Some(r) => r,
                    None => return,
                };
                let m = r.min(len);
                let (d, some) = digest(&buf[..m], &mut tab, rng);
                let changed = (m..len).filter(|&i| buf[i] != { let mut b = [200u8; 81]; b[0] = (i % 250) as u8; b[80] = 77; b }).count();
                res.push(json!({"op": "buffer", "lim": lim_json(lim), "len": len, "n": lim_json(r), "distinct": d, "some": some, "changed": changed}));
            }
        }
    }
    if res.is_empty() {
        return;
    }
    ctx.stat("big", 1);
    let mut e = serde_json::Map::new();
    let need = lims.iter().cloned().max().unwrap().min(t).div_ceil(n);
    k.put(&g2, &mut tab, &mut e, need);
    e.insert("k".into(), json!("big"));
    e.insert("g".into(), gv(&g));
    e.insert("g2".into(), gv(&g2));
    e.insert("h".into(), json!(h));
    e.insert("res".into(), json!(res));
    e.insert("tab".into(), tab.json());
    if rng.gen_bool(0.2) {
        let mut c = Value::Object(e.clone());
        let i = rng.gen_range(0..res.len());
        let x = c["res"][i]["n"].as_u64().unwrap();
        c["res"][i]["n"] = json!(x - 1);
        ctx.canary(c);
    }
    ctx.emit(Value::Object(e));
}

/// P04
fn solved(ctx: &mut Ctx, rng: &mut StdRng) {
    let mut grids = special_grids(rng);
    for _ in 0..ctx.part(if ctx.thorough { 10000 } else { 1000 }) {
        grids.push(random_grid(rng));
    }
    for i in 0..ctx.part(if ctx.thorough { 60000 } else { 5000 }) {
        grids.push(near_solved(rng, i));
    }
    for g in &grids {
        solved_event(ctx, g, true);
    }
    let n = ctx.part(if ctx.thorough { 20_000_000 } else { 1_000_000 });
    for i in 0..n {
        if ctx.suspicious > 40 {
            break;
        }
        let g = near_solved(rng, i);
        ctx.prefiltered += 1;
        solved_event(ctx, &g, false);
    }
}

/// grids which are almost solved: valid in all rows and columns, rows and blocks, ... but not all houses
fn near_solved(rng: &mut StdRng, i: usize) -> Grid {
    thread_local! { static BASE: std::cell::Cell<Grid> = std::cell::Cell::new([0; 81]); }
    if i % 50 == 0 {
        BASE.with(|b| b.set(random_solved(rng)));
    }
    let s = shuffle_grid(&BASE.with(|b| b.get()), rng);
    let mut g = s;
    let houses = &geo().houses;
    if i % 8 == 3 {
        return some_houses(rng);
    }
    if i % 64 == 6 {
        // no house complete, but some measure of it (sum, parity, number of digits) may be right
        let mut to: Vec<u8> = (1..=9).collect();
        for _ in 0..rng.gen_range(1..3) {
            let (a, b) = (rng.gen_range(0..9), rng.gen_range(0..9));
            let (x, y) = (to[a], to[b]);
            if x > 1 && y < 9 {
                to[a] = x - 1;
                to[b] = y + 1;
            }
        }
        for x in g.iter_mut() {
            *x = to[*x as usize - 1];
        }
        return g;
    }
    match rng.gen_range(0..10) {
        0 => (),
        1 => {
            // swap two cells of one house
            let h = houses[rng.gen_range(0..27)];
            let (a, b) = (rng.gen_range(0..9), rng.gen_range(0..9));
            g.swap(h[a], h[b]);
        }
        2 => {
            // swap rows (columns) of different bands: blocks wrong, rows and columns fine
            let (a, b) = (rng.gen_range(0..9), rng.gen_range(0..9));
            let col: bool = rng.gen();
            for k in 0..9 {
                if col {
                    g.swap(k * 9 + a, k * 9 + b)
                } else {
                    g.swap(a * 9 + k, b * 9 + k)
                }
            }
        }
        3 => {
            // permute digits in one row/column/block only
            let h = houses[rng.gen_range(0..27)];
            let mut p: Vec<u8> = h.iter().map(|&c| g[c]).collect();
            p.shuffle(rng);
            for (i, &c) in h.iter().enumerate() {
                g[c] = p[i];
            }
        }
        4 => {
            // each block (row) holds all digits, columns do not
            for k in 0..9 {
                let h = houses[if i % 2 == 0 { 18 + k } else { k }];
                let mut p: Vec<u8> = (1..=9).collect();
                p.shuffle(rng);
                for (i, &c) in h.iter().enumerate() {
                    g[c] = p[i];
                }
            }
        }
        5 => {
            let c = rng.gen_range(0..81);
            g[c] = 0;
        }
        6 => {
            let c = rng.gen_range(0..81);
            g[c] = rng.gen_range(0..=9);
        }
        7 => {
            // swap the two digits of a band partially
            let (a, b) = (rng.gen_range(1..=9u8), rng.gen_range(1..=9u8));
            let band = rng.gen_range(0..3);
            for c in band * 27..band * 27 + 27 {
                if g[c] == a {
                    g[c] = b
                } else if g[c] == b {
                    g[c] = a
                }
            }
        }
        8 => {
            // only columns wrong: rotate a row within minirows, rows and blocks stay valid
            let r = rng.gen_range(0..9);
            let k = rng.gen_range(0..3);
            g.swap(r * 9 + k * 3, r * 9 + k * 3 + 1);
        }
        _ => {
            // only rows wrong
            let c = rng.gen_range(0..9);
            let k = rng.gen_range(0..3);
            g.swap(k * 27 + c, k * 27 + 9 + c);
        }
    }
    g
}

/// a full grid in which a random choice of houses is complete for sure, the others only by accident
fn some_houses(rng: &mut StdRng) -> Grid {
    let mut on = [true; 27];
    match rng.gen_range(0..4) {
        0 => for _ in 0..rng.gen_range(1..4) { on[rng.gen_range(0..27)] = false },
        1 => for h in 18..27 { on[h] = rng.gen() },
        2 => {
            // one kind of house only counts for some
            let k = rng.gen_range(0..3) * 9;
            let p = rng.gen_range(0.0..1.0);
            for h in k..k + 9 { on[h] = rng.gen_bool(p) }
        }
        _ => {
            let p = rng.gen_range(0.3..1.0);
            for h in 0..27 { on[h] = rng.gen_bool(p) }
        }
    }
    let of: Vec<Vec<usize>> = (0..81).map(|c| (0..27).filter(|&h| on[h] && geo().houses[h].contains(&c)).collect()).collect();
    fn fill(g: &mut Grid, free: &mut [u16; 27], of: &[Vec<usize>], rng: &mut StdRng, nodes: &mut usize) -> bool {
        let mut best = (10, 81, 0u16);
        let k = rng.gen_range(0..81);
        for c in (k..81).chain(0..k) {
            if g[c] == 0 {
                let m = of[c].iter().fold(0x3fe, |m, &h| m & free[h]);
                if m.count_ones() < best.0 {
                    best = (m.count_ones(), c, m);
                }
            }
        }
        let (_, c, m) = best;
        if c == 81 {
            return true;
        }
        let mut ds: Vec<u8> = (1..=9).filter(|&d| m >> d & 1 == 1).collect();
        ds.shuffle(rng);
        for d in ds {
            if *nodes == 0 {
                return false;
            }
            *nodes -= 1;
            g[c] = d;
            for &h in &of[c] { free[h] &= !(1 << d) }
            if fill(g, free, of, rng, nodes) {
                return true;
            }
            for &h in &of[c] { free[h] |= 1 << d }
            g[c] = 0;
        }
        false
    }
    loop {
        let mut g = [0; 81];
        if fill(&mut g, &mut [0x3fe; 27], &of, rng, &mut 2000) {
            return g;
        }
    }
}

fn solved_event(ctx: &mut Ctx, g: &Grid, always: bool) {
    let s = sud(g);
    let inp = || json!({"grid": line(g)});
    let r = (
        ctx.call("is_solved", &inp, || s.is_solved()),
        ctx.call("n_clues", &inp, || s.n_clues()),
        ctx.call("iter", &inp, || s.iter().map(|o| o.map_or(0u8, |d| if d == 0 { 255 } else { d })).collect::<Vec<u8>>()),
    );
    let (a, n, it) = match r {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return,
    };
    let bad = a != full_valid(g) || n as usize != n_clues(g) || it[..] != g[..];
    ctx.stat(if full_valid(g) { "solved" } else { "not solved" }, 1);
    if bad {
        ctx.suspicious += 1;
    }
    if always && ctx.n % 300 == 7 {
        ctx.canary(json!({"k":"solved","g":gv(g),"solved":!a,"n":n,"iter":it}));
        ctx.canary(json!({"k":"solved","g":gv(g),"solved":a,"n":n + 1,"iter":it}));
    }
    if always || bad {
        ctx.emit(json!({"k":"solved","g":gv(g),"solved":a,"n":n,"iter":it}));
    }
}
