//! P05-P07: generators.
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::{sud, Tab};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use sudoku::{Sudoku, Symmetry};

/// Random number generators of all kinds: uniform, of low entropy, scripted.
/// Now and then a uniform value is mixed in, because rejection sampling need not terminate otherwise.
#[derive(Clone, Debug)]
pub struct ScriptRng {
    base: StdRng,
    mode: u8,
    val: u64,
    pub draws: u64,
}
impl ScriptRng {
    pub fn new(rng: &mut StdRng) -> ScriptRng {
        let mode = if rng.gen_bool(0.5) { 0 } else { rng.gen_range(1..8) };
        ScriptRng { base: StdRng::seed_from_u64(rng.gen()), mode, val: rng.gen(), draws: 0 }
    }
}
impl RngCore for ScriptRng {
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        let r = self.base.next_u64();
        if self.draws % 7 == 0 {
            return r;
        }
        match self.mode {
            0 => r,
            1 => 0,
            2 => self.val & 0x0fff_ffff_0fff_ffff,
            3 => if r & 1 == 0 { 0 } else { 0xf000_0000_f000_0000 },
            4 => 0x7000_0000_7000_0000,
            5 => (self.draws << 28 | self.draws << 60) & 0xf7ff_ffff_f7ff_ffff,
            6 => r & 0xc000_0000_c000_0000,
            _ => 0xe000_0000_e000_0000,
        }
    }
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn same_state(a: &ScriptRng, b: &ScriptRng) -> bool {
    let (mut x, mut y) = (a.clone(), b.clone());
    a.draws == b.draws && (0..4).all(|_| x.next_u64() == y.next_u64())
}

pub const SYMS: [(Symmetry, &str); 10] = [
    (Symmetry::VerticalMirror, "VerticalMirror"),
    (Symmetry::HorizontalMirror, "HorizontalMirror"),
    (Symmetry::VerticalAndHorizontalMirror, "VerticalAndHorizontalMirror"),
    (Symmetry::DiagonalMirror, "DiagonalMirror"),
    (Symmetry::AntidiagonalMirror, "AntidiagonalMirror"),
    (Symmetry::BidiagonalMirror, "BidiagonalMirror"),
    (Symmetry::QuarterRotation, "QuarterRotation"),
    (Symmetry::HalfRotation, "HalfRotation"),
    (Symmetry::Dihedral, "Dihedral"),
    (Symmetry::None, "None"),
];

pub fn orbit(sym: usize, c: usize) -> Vec<usize> {
    let (r, k) = (c / 9, c % 9);
    let at = |r: usize, k: usize| r * 9 + k;
    let (m, n) = (8 - r, 8 - k);
    let (v, h, d, a, half, q1, q3) = (at(r, n), at(m, k), at(k, r), at(n, m), at(m, n), at(k, m), at(n, r));
    let mut o = vec![c];
    o.extend(match sym {
        0 => vec![v],
        1 => vec![h],
        2 => vec![v, h, half],
        3 => vec![d],
        4 => vec![a],
        5 => vec![d, a, half],
        6 => vec![half, q1, q3],
        7 => vec![half],
        8 => vec![v, h, half, d, a, q1, q3],
        _ => vec![],
    });
    o.sort();
    o.dedup();
    o
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(5);
    match prop {
        "P05" => fill(ctx, &mut rng),
        "P06" => {
            dig(ctx, &mut rng);
            det(ctx, &mut rng)
        }
        "P07" => minimal(ctx, &mut rng),
        _ => unreachable!(),
    }
}

fn fill(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = ctx.part(if ctx.thorough { 100_000 } else { 8_000 });
    let vol = ctx.part(if ctx.thorough { 40_000_000 } else { 500_000 });
    let budget = if ctx.thorough { 1800.0 } else { 40.0 };
    let t0 = ctx.elapsed();
    let mut seen: Vec<(ScriptRng, Grid)> = vec![];
    for i in 0..n + vol {
        if ctx.suspicious > 40 || ctx.elapsed() - t0 > budget {
            break;
        }
        let start = ScriptRng::new(rng);
        let mut res = vec![];
        let mut ends = vec![];
        let reps = if i < n { 3 } else { 2 };
        for k in 0..reps {
            let mut r = start.clone();
            let inp = || json!({"rng": format!("{:?}", start)});
            // through a trait object as well
            let g = ctx.call("generate_solved_with_rng", &inp, || {
                if k == 1 {
                    let d: &mut dyn RngCore = &mut r;
                    Sudoku::generate_solved_with_rng(d)
                } else {
                    Sudoku::generate_solved_with_rng(&mut r)
                }
            });
            if let Some(g) = g {
                res.push(g.to_bytes());
                ends.push(r);
            }
        }
        if res.len() < reps {
            continue;
        }
        // calls in the past must not matter
        if i < n && i % 50 == 0 {
            seen.push((start.clone(), res[0]));
            let (s, g) = seen[rng.gen_range(0..seen.len())].clone();
            let mut r = s.clone();
            if let Some(x) = ctx.call("generate_solved_with_rng", &|| json!(null), || Sudoku::generate_solved_with_rng(&mut r)) {
                ctx.emit(json!({"k":"fill","g":gv(&g),"again":[gv(&x.to_bytes())],"rngsame":true}));
            }
        }
        let same = ends.iter().all(|e| same_state(e, &ends[0]));
        ctx.stat(["uniform", "zeros", "constant", "two values", "constant", "counter", "two bits", "constant"][start.mode as usize], 1);
        let bad = !full_valid(&res[0]) || !same || res.iter().any(|g| *g != res[0]);
        let e = json!({"k":"fill","g":gv(&res[0]),"again":res[1..].iter().map(gv).collect::<Vec<_>>(),"rngsame":same});
        if i < n || bad {
            ctx.suspicious += bad as u64;
            if i % 200 == 3 {
                let mut c = e.clone();
                let c0 = rng.gen_range(0..81);
                c["g"][c0] = json!(c["g"][c0].as_u64().unwrap() % 9 + 1);
                c["again"] = json!([]);
                ctx.canary(c);
                let mut c = e.clone();
                c["again"][0][c0] = json!(0);
                ctx.canary(c);
            }
            ctx.emit(e);
        } else {
            ctx.prefiltered += 1;
        }
        if i < n && i % 4 == 0 {
            if let Some(g) = ctx.call("generate_solved", &|| json!(null), Sudoku::generate_solved) {
                ctx.emit(json!({"k":"fill","g":gv(&g.to_bytes()),"again":[],"rngsame":true}));
            }
        }
    }
}

/// sources: solved, unique puzzles, ambiguous, contradictory
fn source(rng: &mut StdRng, i: usize) -> Grid {
    match i % 8 {
        0 | 1 => random_solved(rng),
        2 => {
            // unique puzzle with some symmetry-free clues
            let s = random_solved(rng);
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(0..40);
            add_clues(&p, &s, n, rng)
        }
        3 if rng.gen() => {
            // known puzzles, many of them with 17 clues, and a few more clues
            let x = HARD.iter().chain(MEDIUM).collect::<Vec<_>>();
            let p = shuffle_grid(&parse(x[rng.gen_range(0..x.len())]), rng);
            let s = solve(&p, 1)[0];
            let n = *[0, 1, 1, 1, 2, 3, 5, 10].choose(rng).unwrap();
            add_clues(&p, &s, n, rng)
        }
        3 => {
            let s = random_solved(rng);
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(1..12);
            add_clues(&p, &s, n, rng)
        }
        4 => {
            let g = special_grids(rng);
            *g.choose(rng).unwrap()
        }
        _ => random_grid(rng),
    }
}

fn put_sols(e: &mut serde_json::Map<String, Value>, key: &str, g: &Grid, cap: usize) -> usize {
    let sols = solve(g, cap);
    let exact = sols.len() < cap;
    e.insert(format!("{key}exact"), json!(exact));
    if exact {
        e.insert(format!("{key}cert"), certificate(g));
        e.insert(format!("{key}wit"), json!([]));
    } else {
        e.insert(format!("{key}cert"), json!([2]));
        e.insert(format!("{key}wit"), json!(sols[..2].iter().map(gv).collect::<Vec<_>>()));
    }
    sols.len()
}

/// one call of one of the generating functions; the second result tells whether the source counts
fn generate(ctx: &mut Ctx, api: usize, src: &Grid, sym: usize, r: &mut ScriptRng) -> Option<Grid> {
    let s = sud(src);
    let inp = || json!({"grid": line(src), "sym": SYMS[sym].1, "rng": format!("{:?}", r)});
    let inp = inp();
    let inp = || inp.clone();
    let sy = SYMS[sym].0;
    match api {
        0 => ctx.call("generate", &inp, Sudoku::generate),
        1 => ctx.call("generate_with_symmetry", &inp, || Sudoku::generate_with_symmetry(sy)),
        2 => ctx.call("generate_from", &inp, || Sudoku::generate_from(s)),
        3 => ctx.call("generate_with_symmetry_from", &inp, || Sudoku::generate_with_symmetry_from(s, sy)),
        4 => ctx.call("generate_with_symmetry_and_rng_from", &inp, || {
            let d: &mut dyn RngCore = r;
            Sudoku::generate_with_symmetry_and_rng_from(s, sy, d)
        }),
        _ => ctx.call("generate_with_symmetry_and_rng_from", &inp, || Sudoku::generate_with_symmetry_and_rng_from(s, sy, r)),
    }
    .map(|s| s.to_bytes())
}

fn pick(rng: &mut StdRng, i: usize) -> (usize, usize) {
    let api = if i % 3 == 0 { rng.gen_range(0..5) } else { 5 };
    let sym = match api {
        0 => 7,
        2 => 9,
        _ => (i / 3 + rng.gen_range(0..2)) % 10,
    };
    (api, sym)
}

fn dig(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = ctx.part(if ctx.thorough { 30_000 } else { 2_500 });
    let vol = ctx.part(if ctx.thorough { 1_000_000 } else { 8_000 });
    let budget = if ctx.thorough { 1800.0 } else { 30.0 };
    let t0 = ctx.elapsed();
    for i in 0..n + vol {
        if ctx.suspicious > 40 || ctx.elapsed() - t0 > budget {
            break;
        }
        let src = source(rng, i);
        let (api, sym) = pick(rng, i);
        let mut r = ScriptRng::new(rng);
        let out = match generate(ctx, api, &src, sym, &mut r) {
            Some(g) => g,
            None => continue,
        };
        let with_src = api >= 2;
        let ns = solve(&src, 2);
        let no = solve(&out, 2);
        let bad = if with_src {
            if ns.len() == 1 { no != ns || (0..81).any(|c| out[c] != 0 && out[c] != src[c]) } else { out != src }
        } else {
            no.len() != 1
        };
        if i >= n && !bad {
            ctx.prefiltered += 1;
            continue;
        }
        ctx.suspicious += bad as u64;
        ctx.stat(if !with_src { "no source" } else { ["source without solution", "unique source", "ambiguous source"][ns.len()] }, 1);
        let mut e = serde_json::Map::new();
        e.insert("k".into(), json!(if with_src { "dig" } else { "gen" }));
        e.insert("api".into(), json!(api));
        e.insert("sym".into(), json!(SYMS[sym].1));
        e.insert("out".into(), gv(&out));
        if with_src {
            e.insert("src".into(), gv(&src));
            put_sols(&mut e, "src", &src, 3);
        }
        put_sols(&mut e, "out", &out, 3);
        if i % 60 == 5 && with_src {
            let mut c = e.clone();
            let p = if ns.len() == 1 {
                // a clue too few
                let mut g = out;
                let clues: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
                for &c in &clues {
                    let mut x = out;
                    x[c] = 0;
                    if solve(&x, 2).len() != 1 {
                        g = x;
                        break;
                    }
                }
                g
            } else {
                let mut g = out;
                let c0 = rng.gen_range(0..81);
                g[c0] = if g[c0] == 0 { 1 } else { 0 };
                g
            };
            c.insert("out".into(), gv(&p));
            put_sols(&mut c, "out", &p, 3);
            if p != out {
                ctx.canary(Value::Object(c));
            }
        }
        ctx.emit(Value::Object(e));
    }
}

fn det(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = ctx.part(if ctx.thorough { 20_000 } else { 1_500 });
    let vol = ctx.part(if ctx.thorough { 300_000 } else { 8_000 });
    let budget = if ctx.thorough { 900.0 } else { 25.0 };
    let t0 = ctx.elapsed();
    for i in 0..n + vol {
        if ctx.suspicious > 40 || ctx.elapsed() - t0 > budget {
            break;
        }
        // mostly sources that leave a choice
        let kind = if i < n / 2 { i } else { *[0, 2, 3, 3, 3].choose(rng).unwrap() };
        let src = source(rng, kind);
        let sym = if i < n / 2 || rng.gen_bool(0.5) { rng.gen_range(0..10) } else { 9 };
        let start = ScriptRng::new(rng);
        let mut outs = vec![];
        let mut ends = vec![];
        for k in 0..3 {
            let mut r = start.clone();
            if let Some(g) = generate(ctx, if k == 1 { 4 } else { 5 }, &src, sym, &mut r) {
                outs.push(g);
                ends.push(r);
            }
        }
        if outs.len() == 3 {
            let same = ends.iter().all(|e| same_state(e, &ends[0]));
            let bad = !same || outs.iter().any(|g| *g != outs[0]);
            ctx.suspicious += bad as u64;
            if i >= n && !bad {
                ctx.prefiltered += 1;
                continue;
            }
            ctx.emit(json!({"k":"det","outs":outs.iter().map(gv).collect::<Vec<_>>(),"rngsame":same}));
        }
    }
}

fn minimal(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = ctx.part(if ctx.thorough { 20_000 } else { 1_600 });
    let vol = ctx.part(if ctx.thorough { 1_000_000 } else { 10_000 });
    let budget = if ctx.thorough { 1800.0 } else { 30.0 };
    let t0 = ctx.elapsed();
    for i in 0..n + vol {
        if ctx.suspicious > 40 || ctx.elapsed() - t0 > budget {
            break;
        }
        let src = source(rng, [0, 1, 2, 3, 0, 3][i % 6]);
        let (api, sym) = pick(rng, i);
        let mut r = ScriptRng::new(rng);
        let out = match generate(ctx, api, &src, sym, &mut r) {
            Some(g) => g,
            None => continue,
        };
        let fromsolved = api < 2 || full_valid(&src);
        let sol = if api < 2 { solve(&out, 1).first().cloned() } else { solve(&src, 1).first().cloned() };
        let sol = match sol {
            Some(s) if (0..81).all(|c| out[c] == 0 || out[c] == s[c]) => s,
            // not this property's business, but nothing to judge
            _ => continue,
        };
        let mut tab = Tab::new();
        let mut wit = vec![];
        let mut bad = false;
        for c in 0..81 {
            let o = orbit(sym, c);
            bad |= fromsolved && o.iter().any(|&x| (out[x] == 0) != (out[c] == 0));
            if o[0] != c || o.iter().all(|&x| out[x] == 0) {
                continue;
            }
            let mut g = out;
            for x in o {
                g[x] = 0;
            }
            match solve(&g, 2).iter().find(|s| **s != sol) {
                Some(s) => wit.push(json!([c + 1, tab.ix(s)])),
                None => {
                    bad = true;
                    wit.push(json!([c + 1, 0, certificate(&g)]));
                }
            }
        }
        ctx.stat(SYMS[sym].1, 1);
        if i >= n && !bad {
            ctx.prefiltered += 1;
            continue;
        }
        ctx.suspicious += bad as u64;
        let e = json!({"k":"min","api":api,"sym":SYMS[sym].1,"out":gv(&out),"sol":gv(&sol),"fromsolved":fromsolved,"wit":wit,"tab":tab.json()});
        if i % 40 == 3 && fromsolved && !bad {
            let mut c = e.clone();
            // another symmetry
            let s2 = (0..10).find(|&s| (0..81).any(|c| orbit(s, c).iter().any(|&x| (out[x] == 0) != (out[c] == 0))));
            if let Some(s2) = s2 {
                c["sym"] = json!(SYMS[s2].1);
                c["wit"] = json!((0..81).map(|c| json!([c + 1, 1])).collect::<Vec<_>>());
                ctx.canary(c);
            }
            let mut c = e.clone();
            // witness that is the solution itself
            let x = tab.ix(&sol);
            c["tab"] = tab.json();
            c["wit"][0][1] = json!(x);
            ctx.canary(c);
        }
        ctx.emit(e);
    }
}
