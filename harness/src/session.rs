//! P19-P21: sessions with the strategy solver (insertions, views, clones, rebuilding, printing).
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::sud;
use crate::strategies::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use sudoku::board::{Candidate, Cell, CellState, Digit};
use sudoku::strategy::{Strategy, StrategySolver};

#[derive(Clone, Debug)]
pub enum Op {
    Ins(usize, u8),
    Gs,
    Cs(usize),
    Ts,
    Sv,
    Cl,
    Rb,
    Keep,
    Kept,
    Pr,
}

fn state(s: CellState) -> (u8, Vec<u8>) {
    match s {
        CellState::Digit(d) => (d.get(), vec![]),
        CellState::Candidates(c) => (0, digits(c)),
    }
}

fn states(gs: &[CellState; 81]) -> (Value, Value) {
    let v: Vec<_> = gs.iter().map(|&s| state(s)).collect();
    (json!(v.iter().map(|x| x.0).collect::<Vec<_>>()), json!(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>()))
}

fn chars(s: &str) -> Value {
    json!(s.chars().map(|c| c.to_string()).collect::<Vec<_>>())
}

/// the digits in each cell of a table, as far as they can be made out
fn shown(t: &str) -> Vec<Vec<u8>> {
    t.lines()
        .filter(|l| l.starts_with('│'))
        .flat_map(|l| l.split(|c: char| c == '│' || c.is_whitespace()))
        .filter(|x| !x.is_empty())
        .map(|x| x.bytes().filter(u8::is_ascii_digit).map(|b| b - b'0').collect())
        .collect()
}

fn start(p: &Posn, how: usize, rng: &mut StdRng) -> StrategySolver {
    match how {
        // the clues are additional information only
        1 if p.plain => {
            let n = rng.gen_range(0..20);
            StrategySolver::from_sudoku_and_clues(sud(&p.g), sud(&remove_clues(&p.g, n, rng)))
        }
        2 => StrategySolver::from_grid_state(cell_states(p)),
        _ => make(p, false),
    }
}

fn apply(s: &mut StrategySolver, kept: &mut StrategySolver, op: &Op, look: bool) -> Option<Value> {
    Some(match op {
        Op::Ins(c, d) => {
            let ok = s.insert_candidate(Candidate::new(*c as u8, *d)).is_ok();
            json!(["ins", c + 1, d, ok])
        }
        Op::Rb => {
            *s = StrategySolver::from_grid_state(s.grid_state());
            json!(["rb"])
        }
        _ if !look => return None,
        Op::Gs => {
            let (a, b) = states(&s.grid_state());
            json!(["gs", a, b])
        }
        Op::Cs(c) => {
            let x = state(s.cell_state(Cell::new(*c as u8)));
            json!(["cs", c + 1, x.0, x.1])
        }
        Op::Ts => json!(["ts", gv(&s.to_sudoku().to_bytes())]),
        Op::Sv => json!(["sv", s.is_solved()]),
        Op::Cl => {
            *s = s.clone();
            json!(["cl"])
        }
        Op::Keep => {
            *kept = s.clone();
            json!(["keep"])
        }
        Op::Kept => {
            let (a, b) = states(&kept.grid_state());
            json!(["kept", a, b])
        }
        Op::Pr => {
            let t = s.to_string();
            let lines: Vec<Value> = t.split('\n').map(chars).collect();
            json!(["pr", lines, shown(&t)])
        }
    })
}

fn run_json(r: &Run) -> Value {
    json!({"ok": r.ok, "out": gv(&r.out), "ded": r.ded})
}

fn session(ctx: &mut Ctx, prop: &str, p: &Posn, how: usize, ops: &[Op], list: &[usize]) -> Option<Value> {
    let (g, el) = pos_json(p);
    let st: Vec<Strategy> = list.iter().map(|&i| strategy(i)).collect();
    let seed = ctx.seed ^ ops.len() as u64;
    let inp = || json!({"pos": pos_json(p), "how": how, "ops": format!("{:?}", ops), "strategies": names(list)});
    ctx.call("session", &inp, || {
        let mut rng = <StdRng as rand::SeedableRng>::seed_from_u64(seed);
        let mut s = start(p, how, &mut rng);
        let mut kept = s.clone();
        let mut bare = s.clone();
        let mut done = vec![];
        for op in ops {
            if prop == "P19" {
                apply(&mut bare, &mut kept.clone(), op, false);
            }
            done.extend(apply(&mut s, &mut kept, op, true));
        }
        let again = StrategySolver::from_grid_state(s.grid_state());
        let mut e = json!({"k": "session", "p": prop, "g": g, "el": el, "ops": done, "strats": names(list)});
        if prop == "P19" {
            e["bare"] = run_json(&result(bare.solve(&st)));
        }
        if prop == "P20" {
            e["again"] = run_json(&result(again.solve(&st)));
        }
        if prop != "P21" {
            e["run"] = run_json(&result(s.solve(&st)));
        }
        e
    })
}

fn random_ops(prop: &str, p: &Posn, rng: &mut StdRng) -> Vec<Op> {
    let sol = p.sols.first().copied();
    let n = rng.gen_range(1..24);
    // how many insertions are wrong
    let wild = [0.0, 0.0, 0.1, 0.5][rng.gen_range(0..4)];
    let mut cur = p.g;
    let mut ops = vec![];
    let few: Vec<usize> = (0..3).map(|_| rng.gen_range(0..81)).collect();
    let local = rng.gen_bool(0.3);
    for _ in 0..n {
        let k = rng.gen_range(0..20);
        let mut c = rng.gen_range(0..81);
        if local {
            let f = few[rng.gen_range(0..3)];
            c = if rng.gen_bool(0.5) { f } else { *geo().peers[f].iter().nth(rng.gen_range(0..20)).unwrap() };
        }
        ops.push(match k {
            0..=7 => {
                let d = match sol {
                    Some(s) if !rng.gen_bool(wild) && cur[c] == 0 => s[c],
                    _ if cur[c] != 0 && rng.gen_bool(0.3) => cur[c],
                    _ => rng.gen_range(1..10),
                };
                if cur[c] == 0 {
                    cur[c] = d;
                }
                Op::Ins(c, d)
            }
            8 | 9 => Op::Gs,
            10 | 11 => Op::Cs(c),
            12 => Op::Ts,
            13 => Op::Sv,
            14 => Op::Cl,
            15 | 16 => Op::Rb,
            17 => Op::Keep,
            18 => Op::Kept,
            _ => Op::Pr,
        });
    }
    match prop {
        "P19" => {
            ops.push(Op::Cs(few[0]));
            ops.push(Op::Gs);
            ops.push(Op::Kept);
            if rng.gen_bool(0.5) {
                ops.push(Op::Sv);
            }
        }
        "P20" => {
            ops.push(Op::Kept);
            ops.push(if rng.gen_bool(0.7) { Op::Gs } else { Op::Ts });
        }
        _ => {
            ops.push(Op::Pr);
            ops.push(Op::Gs);
        }
    }
    ops
}

/// the whole solution, or all but few cells, entered one by one
fn finish_ops(p: &Posn, rng: &mut StdRng) -> Vec<Op> {
    let mut ops = vec![];
    let s = match p.sols.first() {
        Some(s) => *s,
        None => return vec![Op::Sv],
    };
    let wrong = if rng.gen_bool(0.4) { rng.gen_range(0..81) } else { 99 };
    for c in 0..81 {
        if p.g[c] == 0 {
            let d = if c == wrong { rng.gen_range(1..10) } else { s[c] };
            ops.push(Op::Ins(c, d));
            if rng.gen_bool(0.02) {
                ops.push(Op::Sv);
            }
        }
    }
    let skip = rng.gen_range(0..4);
    for _ in 0..skip {
        if ops.is_empty() {
            break;
        }
        let i = rng.gen_range(0..ops.len());
        ops.remove(i);
    }
    ops.push(Op::Sv);
    ops.push(Op::Ts);
    ops.push(Op::Sv);
    ops
}

fn generated(line: &str) -> Option<(Posn, Vec<Op>)> {
    let v: Value = serde_json::from_str(line).ok()?;
    let mut g = [0u8; 81];
    let mut m = [0x3feu16; 81];
    let mut plain = true;
    for c in 0..81 {
        g[c] = v["g"][c].as_u64()? as u8;
        for d in v["el"][c].as_array()? {
            m[c] &= !(1 << d.as_u64()?);
            plain = false;
        }
    }
    let mut ops = vec![];
    for o in v["ops"].as_array()? {
        let (c, d) = (o[1].as_u64()? as usize, o[2].as_u64()? as u8);
        ops.push(match o[0].as_str()? {
            "ins" => Op::Ins(c - 1, d),
            "gs" => Op::Gs,
            "cs" => Op::Cs(c - 1),
            "ts" => Op::Ts,
            "sv" => Op::Sv,
            "cl" => Op::Cl,
            "rb" => Op::Rb,
            "keep" => Op::Keep,
            "kept" => Op::Kept,
            "pr" => Op::Pr,
            _ => return None,
        });
    }
    Some((Posn { g, m, plain, sols: vec![] }, ops))
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(19);
    let mut canaries = 0;
    // sessions generated by TLC from the specification
    if let Ok(t) = std::fs::read_to_string("sessions.json") {
        for (i, line) in t.lines().enumerate() {
            if !ctx.mine(i) {
                continue;
            }
            let (mut p, ops) = generated(line).expect("generated session");
            fill_solutions(&mut p);
            let list = random_list(&mut rng, false);
            let how = rng.gen_range(0..3);
            if let Some(e) = session(ctx, prop, &p, how, &ops, &list) {
                ctx.stat("sessions generated from the specification", 1);
                ctx.emit(e);
            }
        }
    }
    let specials = special_grids(&mut ctx.rng(1));
    let n = match (prop, ctx.thorough) {
        (_, true) => 60000,
        ("P21", false) => 2000,
        _ => 5000,
    };
    for i in 0..ctx.part(n) {
        let mut p = if prop == "P21" && i % 5 == 1 {
            dead_end(&mut rng)
        } else if i % 10 == 9 {
            plain(&specials[rng.gen_range(0..specials.len())])
        } else {
            random_position(&mut rng)
        };
        fill_solutions(&mut p);
        let ops = if i % 12 == 0 && prop != "P21" { finish_ops(&p, &mut rng) } else { random_ops(prop, &p, &mut rng) };
        let list = random_list(&mut rng, false);
        let how = rng.gen_range(0..3);
        if let Some(e) = session(ctx, prop, &p, how, &ops, &list) {
            ctx.stat("random sessions", 1);
            if canaries < 6 {
                if let Some(c) = corrupt(prop, &e, &mut rng) {
                    canaries += 1;
                    ctx.canary(c);
                }
            }
            ctx.emit(e);
        }
    }
    if prop == "P21" {
        cells(ctx);
    }
}

/// Digits without a conflict that leave no candidate for some cells, among them the last one of a column.
fn dead_end(rng: &mut StdRng) -> Posn {
    let s = random_solved(rng);
    let n = rng.gen_range(0..70);
    let mut g = remove_clues(&s, n, rng);
    let blank = |g: &mut Grid, h: usize| geo().houses[h].iter().for_each(|&c| g[c] = 0);
    // a column with eight digits whose last one is elsewhere
    for _ in 0..rng.gen_range(1..3) {
        let (k, r) = (rng.gen_range(0..9), rng.gen_range(0..9));
        let c = r * 9 + k;
        let d = s[c];
        for x in 0..9 {
            g[x * 9 + k] = s[x * 9 + k];
        }
        g[c] = 0;
        let mut others: Vec<usize> = geo().peers[c].iter().cloned().filter(|&x| x % 9 != k).collect();
        others.shuffle(rng);
        if let Some(&x) = others.first() {
            if rng.gen_bool(0.2) {
                blank(&mut g, x / 9);
            }
            for &y in &geo().peers[x] {
                if g[y] == d {
                    g[y] = 0
                }
            }
            g[x] = d;
        }
    }
    plain(&g)
}

/// all cell states, at several widths
fn cells(ctx: &mut Ctx) {
    for i in 0..521u16 {
        if !ctx.mine(i as usize) {
            continue;
        }
        let s = if i < 9 { CellState::Digit(Digit::new(i as u8 + 1)) } else { CellState::Candidates(mask_set((i - 9) << 1)) };
        let r = ctx.call("CellState::fmt", &|| json!(format!("{:?}", s)), || {
            let texts: Vec<Value> = (0..16).map(|w| chars(&format!("{:w$}", s, w = w))).collect();
            (texts, chars(&s.to_string()))
        });
        if let Some((texts, plain)) = r {
            let (d, c) = state(s);
            ctx.emit(json!({"k": "cell", "d": d, "cands": c, "texts": texts, "plain": plain}));
        }
    }
}

fn corrupt(prop: &str, e: &Value, rng: &mut StdRng) -> Option<Value> {
    let mut e = e.clone();
    let n = e["ops"].as_array().unwrap().len();
    let i = rng.gen_range(0..n);
    let kind = e["ops"][i][0].as_str().unwrap().to_string();
    match (prop, kind.as_str()) {
        ("P19", "gs") | ("P19", "kept") | ("P20", "gs") => {
            let c = rng.gen_range(0..81);
            let x = e["ops"][i][1][c].as_u64().unwrap();
            if x != 0 {
                e["ops"][i][1][c] = json!(if x == 9 { 1 } else { x + 1 });
            } else {
                let mut v: Vec<u8> = serde_json::from_value(e["ops"][i][2][c].clone()).unwrap();
                if v.is_empty() {
                    v.push(4)
                } else {
                    v.pop();
                }
                e["ops"][i][2][c] = json!(v);
            }
        }
        ("P19", "sv") => e["ops"][i][1] = json!(!e["ops"][i][1].as_bool().unwrap()),
        ("P19", "ts") | ("P20", "ts") => {
            let c = rng.gen_range(0..81);
            let x = e["ops"][i][1][c].as_u64().unwrap();
            e["ops"][i][1][c] = json!((x + 1) % 10);
        }
        ("P21", "pr") => {
            let lines = e["ops"][i][1].as_array_mut().unwrap();
            // a wrong border or a missing line break are always wrong
            if rng.gen_bool(0.5) {
                lines.pop();
            } else {
                lines.insert(3, json!([]));
            }
        }
        _ => return None,
    }
    Some(e)
}
