//! P24, P25: programs over the whole public interface.
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::formats;
use crate::gen::{ScriptRng, SYMS};
use crate::refs::*;
use crate::solver::sud;
use crate::strategies::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::{Candidate, Cell, CellState, Digit};
use sudoku::strategy::deduction::Deductions;
use sudoku::strategy::{Strategy, StrategySolver};
use sudoku::Sudoku;

type A = i64;

struct OpDef {
    name: &'static str,
    a: (A, A),
    b: (A, A),
    needs: u8, // 1 = solver, 2 = deductions
    makes: u8,
    det: bool,
}
const SEED: (A, A) = (0, 9999);
const Z: (A, A) = (0, 0);
const LIMITS: [A; 10] = [-1, 0, 1, 2, 3, 7, 10, 100, 1000, 5000];
const fn op(name: &'static str, a: (A, A), b: (A, A), needs: u8, makes: u8, det: bool) -> OpDef {
    OpDef { name, a, b, needs, makes, det }
}
const OPS: &[OpDef] = &[
    op("load", (0, 9), SEED, 0, 0, true),
    op("bytes", (0, 200), SEED, 0, 0, true),
    op("parse_line", (0, 5), SEED, 0, 0, true),
    op("parse_block", (0, 5), SEED, 0, 0, true),
    op("parse_perm", (0, 5), SEED, 0, 0, true),
    op("from_json", (0, 5), SEED, 0, 0, true),
    op("from_bin", (0, 200), SEED, 0, 0, true),
    op("gen_solved", Z, SEED, 0, 0, true),
    op("gen", (0, 9), SEED, 0, 0, true),
    op("gen_from", (0, 9), SEED, 0, 0, true),
    op("gen_thread", (0, 9), (0, 4), 0, 0, false),
    op("take_sol", Z, Z, 0, 0, true),
    op("take_canon", Z, Z, 0, 0, true),
    op("shuffle", (0, 1), Z, 0, 0, false),
    op("drop_clues", (1, 80), SEED, 0, 0, true),
    op("put_digit", (0, 80), (0, 9), 0, 0, true),
    op("swap", Z, Z, 0, 0, true),
    op("n_clues", Z, Z, 0, 0, true),
    op("is_solved", Z, Z, 0, 0, true),
    op("some_sol", Z, Z, 0, 0, true),
    op("solution", Z, Z, 0, 0, true),
    op("unique", Z, Z, 0, 0, true),
    op("count", (-9, 0), Z, 0, 0, true),
    op("list", (-9, 0), Z, 0, 0, true),
    op("buffer", (0, 20), (-9, 0), 0, 0, true),
    op("canonical", Z, Z, 0, 0, true),
    op("print_line", Z, Z, 0, 0, true),
    op("print_block", Z, Z, 0, 0, true),
    op("debug", Z, Z, 0, 0, true),
    op("to_bytes", Z, Z, 0, 0, true),
    op("iter", Z, Z, 0, 0, true),
    op("to_json", Z, Z, 0, 0, true),
    op("to_bin", Z, Z, 0, 0, true),
    op("compare", Z, Z, 0, 0, true),
    op("new_solver", (0, 2), SEED, 0, 1, true),
    op("from_states", (0, 5), SEED, 0, 1, true),
    op("rebuild", Z, Z, 1, 0, true),
    op("insert", (0, 80), (1, 9), 1, 0, true),
    op("to_sudoku", Z, Z, 1, 0, true),
    op("grid_state", Z, Z, 1, 0, true),
    op("cell_state", (0, 80), Z, 1, 0, true),
    op("sv_solved", Z, Z, 1, 0, true),
    op("sv_print", Z, Z, 1, 0, true),
    op("sv_debug", Z, Z, 1, 0, true),
    op("solve", (0, 3), SEED, 1, 2, true),
    op("ded_len", Z, Z, 2, 0, true),
    op("ded_get", (0, 300), Z, 2, 0, true),
    op("ded_iter", Z, Z, 2, 0, true),
    op("ded_debug", Z, Z, 2, 0, true),
    op("digit_new", (0, 255), Z, 0, 0, true),
    op("cell_new", (0, 255), Z, 0, 0, true),
    op("row_new", (0, 255), Z, 0, 0, true),
    op("col_new", (0, 255), Z, 0, 0, true),
    op("block_new", (0, 255), Z, 0, 0, true),
    op("line_new", (0, 255), Z, 0, 0, true),
    op("house_new", (0, 255), Z, 0, 0, true),
    op("chute_new", (0, 255), Z, 0, 0, true),
    op("miniline_new", (0, 255), Z, 0, 0, true),
    op("candidate", (0, 255), (0, 255), 0, 0, true),
    op("digit_set", (0, 511), (0, 511), 0, 0, true),
    op("cell_set", SEED, SEED, 0, 0, true),
];

fn pick(r: (A, A), rng: &mut StdRng) -> A {
    if r == (-9, 0) {
        return *LIMITS.choose(rng).unwrap();
    }
    let x = rng.gen_range(r.0..=r.1);
    // bounds and small values more often
    match rng.gen_range(0..8) {
        0 => r.0,
        1 => r.1,
        2 => x.min(r.0 + 10),
        3 => (x % 90).max(r.0),
        _ => x,
    }
}

pub fn random_program(rng: &mut StdRng, len: usize, det: bool) -> Vec<(String, A, A)> {
    let mut have = 0u8;
    let mut v: Vec<(String, A, A)> = vec![];
    let focus: Option<u8> = if rng.gen_bool(0.4) { Some(rng.gen_range(1..=2)) } else { None };
    while v.len() < len {
        if !v.is_empty() && rng.gen_bool(0.15) {
            let x = v.choose(rng).unwrap().clone();
            v.push(x);
            continue;
        }
        let o = OPS.choose(rng).unwrap();
        if o.needs & !have != 0 || det && !o.det {
            continue;
        }
        if let Some(f) = focus {
            if (o.needs | o.makes) & f == 0 && v.len() > 3 && rng.gen_bool(0.8) {
                continue;
            }
        }
        if o.name.ends_with("_new") && rng.gen_bool(0.8) {
            continue;
        }
        have |= o.makes;
        v.push((o.name.to_string(), pick(o.a, rng), pick(o.b, rng)));
    }
    v
}

struct State {
    su: Sudoku,
    other: Sudoku,
    so: Option<StrategySolver>,
    de: Option<Deductions>,
}

fn grid(kind: A, rng: &mut StdRng) -> Grid {
    match kind {
        0 => [0; 81],
        1 => random_solved(rng),
        2 => {
            let s = random_solved(rng);
            minimal_puzzle(&s, rng)
        }
        3 => {
            let s = random_solved(rng);
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(1..40);
            add_clues(&p, &s, n, rng)
        }
        4 => parse(HARD.choose(rng).unwrap()),
        5 => {
            let v = special_grids(rng);
            *v.choose(rng).unwrap()
        }
        6 => {
            let mut g = [0; 81];
            let n = rng.gen_range(1..81);
            for _ in 0..n {
                g[rng.gen_range(0..81)] = rng.gen_range(1..=9);
            }
            g
        }
        7 => crate::canon::symmetric_grid(rng),
        8 => {
            let d = rng.gen_range(0..=9);
            [d; 81]
        }
        _ => random_grid(rng),
    }
}

fn posn(kind: A, rng: &mut StdRng) -> Posn {
    match kind {
        0 => random_position(rng),
        1 => {
            // all cells have the same candidates
            let m = if rng.gen() { 0b11110 } else { rng.gen_range(0..512u16) << 1 };
            Posn { g: [0; 81], m: [m; 81], plain: false, sols: vec![] }
        }
        2 => {
            let mut p = Posn { g: [0; 81], m: [0; 81], plain: false, sols: vec![] };
            for c in 0..81 {
                p.m[c] = rng.gen_range(0..512u16) << 1;
                if rng.gen_bool(0.1) {
                    p.g[c] = rng.gen_range(1..=9);
                }
            }
            p
        }
        3 => {
            // few candidates everywhere, from a small pool
            let pool: Vec<u16> = (0..rng.gen_range(1..6)).map(|_| (1u16 << rng.gen_range(1..10)) | (1 << rng.gen_range(1..10))).collect();
            let mut p = Posn { g: [0; 81], m: [0; 81], plain: false, sols: vec![] };
            for c in 0..81 {
                p.m[c] = *pool.choose(rng).unwrap() | *pool.choose(rng).unwrap();
            }
            p
        }
        4 => {
            let k = rng.gen_range(0..10);
            let mut p = plain(&grid(k, rng));
            p.plain = false;
            let n = rng.gen_range(0..500);
            for _ in 0..n {
                let d = rng.gen_range(1..10);
                p.m[rng.gen_range(0..81usize)] &= !(1u16 << d);
            }
            p
        }
        _ => {
            let d = rng.gen_range(0..=9);
            Posn { g: [d; 81], m: [0x3fe; 81], plain: false, sols: vec![] }
        }
    }
}

fn text(kind: A, which: u8, rng: &mut StdRng) -> String {
    let mut s = match kind {
        0 | 1 => match which {
            0 => {
                let k = rng.gen_range(0..10);
                line(&grid(k, rng)).replace('?', "1")
            }
            1 => formats::block_string(rng),
            _ => formats::permissive_string(rng),
        },
        2 => formats::mutate(&formats::block_string(rng), rng),
        3 => {
            let n = rng.gen_range(0..200);
            (0..n).map(|_| char::from_u32(if rng.gen_bool(0.7) { rng.gen_range(0..128) } else { rng.gen_range(0..0x11_0000) }).unwrap_or('x')).collect()
        }
        4 => {
            let n = rng.gen_range(0..100);
            formats::cells(rng, n)
        }
        _ => {
            let g = grid(9, rng);
            if rng.gen() { line(&g) } else { block(&g) }
        }
    };
    for _ in 0..[0, 0, 1, 3][rng.gen_range(0..4)] {
        s = formats::mutate(&s, rng);
    }
    s
}

/// the layout of display_block
fn block(g: &Grid) -> String {
    let mut s = String::new();
    for (r, row) in g.chunks(9).enumerate() {
        s += ["\n", "\n\n"][usize::from(r == 3 || r == 6)];
        for (i, &c) in row.iter().enumerate() {
            if i == 3 || i == 6 {
                s.push(' ');
            }
            s.push(if c == 0 { '_' } else { (b'0' + c) as char });
        }
    }
    s
}

fn limit(l: A, s: &Sudoku) -> usize {
    if l >= 0 {
        l as usize
    } else if solve(&s.to_bytes(), 300).len() < 300 {
        usize::MAX
    } else {
        5000
    }
}

pub fn strategies_of(kind: A, rng: &mut StdRng) -> Vec<Strategy> {
    let v: Vec<usize> = match kind {
        0 => random_list(rng, true),
        1 => {
            let n = rng.gen_range(0..30);
            (0..n).map(|_| rng.gen_range(0..16)).collect()
        }
        2 => vec![rng.gen_range(0..16)],
        _ => (0..16).collect(),
    };
    v.into_iter().map(strategy).collect()
}

fn dig<T: std::fmt::Debug>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    format!("{:?}", t).hash(&mut h);
    h.finish() | 1
}

fn solver_print(s: &StrategySolver) -> u64 {
    let gs = s.clone().grid_state();
    dig(&gs.iter().map(|x| match x {
        CellState::Digit(d) => 1000 + d.get() as u16,
        CellState::Candidates(c) => c.bits(),
    }).collect::<Vec<_>>())
}

/// Prepares an operation (harness side) and returns the closure that calls the library
fn prepare(name: &str, a: A, b: A, st: &State) -> Box<dyn FnOnce(&mut State) -> u64> {
    let mut rng = StdRng::seed_from_u64((b * 1000 + a + 17) as u64);
    let rng = &mut rng;
    macro_rules! q {
        ($f:expr) => {
            Box::new(move |s: &mut State| {
                let f = $f;
                dig(&f(s))
            })
        };
    }
    macro_rules! set {
        ($f:expr) => {
            Box::new(move |s: &mut State| {
                #[allow(unused_mut)]
                let mut f = $f;
                match f(s) {
                    Ok(x) => {
                        s.su = x;
                        1
                    }
                    Err(e) => {
                        // the printed form, too
                        dig(&e)
                    }
                }
            })
        };
    }
    match name {
        "load" => {
            let g = grid(a, rng);
            set!(move |_: &mut State| Sudoku::from_bytes(g).map_err(|e| format!("{e} {e:?}")))
        }
        "bytes" => {
            let mut v: Vec<u8> = grid(9, rng).to_vec();
            v.resize(a as usize, if b % 2 == 0 { 0 } else { (b % 256) as u8 });
            if b % 3 == 0 && a > 0 {
                let i = rng.gen_range(0..v.len());
                v[i] = rng.gen();
            }
            set!(move |_: &mut State| {
                let x = Sudoku::try_from(&v[..]).map_err(|e| format!("{e} {e:?}"));
                let y = Sudoku::from_bytes_slice(&v).map_err(|e| format!("{e} {e:?}"));
                if x == y { x } else { Err(format!("differ {:?} {:?}", x, y)) }
            })
        }
        "parse_line" => {
            let t = text(a, 0, rng);
            set!(move |_: &mut State| Sudoku::from_str_line(&t).map_err(|e| format!("{e} {e:?}")))
        }
        "parse_block" => {
            let t = text(a, 1, rng);
            set!(move |_: &mut State| Sudoku::from_str_block(&t).map_err(|e| format!("{e} {e:?}")))
        }
        "parse_perm" => {
            let t = text(a, 2, rng);
            set!(move |_: &mut State| Sudoku::from_str_block_permissive(&t).map_err(|e| format!("{e} {e:?}")))
        }
        "from_json" => {
            let t = match a {
                0 => text(5, 0, rng),
                1 => serde_json::to_string(&text(0, 0, rng)).unwrap(),
                2 => serde_json::to_string(&text(3, 0, rng)).unwrap(),
                3 => serde_json::to_string(&grid(9, rng).to_vec()).unwrap(),
                4 => ["null", "12", "{}", "[]", "\"\"", "true", "[1,2", "\"\\ud800\"", "{\"a\":1}", "-1"][rng.gen_range(0..10)].to_string(),
                _ => formats::mutate(&serde_json::to_string(&line(&grid(9, rng))).unwrap(), rng),
            };
            set!(move |_: &mut State| serde_json::from_str::<Sudoku>(&t).map_err(|e| e.to_string()))
        }
        "from_bin" => {
            let mut v = 81u64.to_le_bytes().to_vec();
            v.extend(grid(9, rng));
            if b % 2 == 0 {
                v.resize(a as usize, (b % 256) as u8);
            }
            if b % 3 == 0 && !v.is_empty() {
                let lo = if v.len() > 8 && rng.gen_bool(0.7) { 8 } else { 0 };
                let i = rng.gen_range(lo..v.len());
                v[i] = rng.gen();
            }
            set!(move |_: &mut State| bincode::deserialize::<Sudoku>(&v).map_err(|e| e.to_string()))
        }
        "gen_solved" => {
            let mut r = ScriptRng::new(rng);
            set!(move |_: &mut State| Ok::<_, ()>(Sudoku::generate_solved_with_rng(&mut r)))
        }
        "gen" => {
            let mut r = ScriptRng::new(rng);
            set!(move |_: &mut State| {
                let s = Sudoku::generate_solved_with_rng(&mut r);
                Ok::<_, ()>(Sudoku::generate_with_symmetry_and_rng_from(s, SYMS[a as usize].0, &mut r))
            })
        }
        "gen_from" => {
            let mut r = ScriptRng::new(rng);
            set!(move |s: &mut State| Ok::<_, ()>(Sudoku::generate_with_symmetry_and_rng_from(s.su, SYMS[a as usize].0, &mut r)))
        }
        "gen_thread" => set!(move |s: &mut State| Ok::<_, ()>(match b {
            0 => Sudoku::generate(),
            1 => Sudoku::generate_solved(),
            2 => Sudoku::generate_from(s.su),
            3 => Sudoku::generate_with_symmetry(SYMS[a as usize].0),
            _ => Sudoku::generate_with_symmetry_from(s.su, SYMS[a as usize].0),
        })),
        "take_sol" => set!(|s: &mut State| s.su.some_solution().ok_or("none")),
        "take_canon" => set!(|s: &mut State| s.su.canonicalized().map(|x| x.0).ok_or("none")),
        "shuffle" => set!(move |s: &mut State| Ok::<_, ()>(if a == 0 {
            s.su.shuffled()
        } else {
            let mut x = s.su;
            x.shuffle();
            x
        })),
        "drop_clues" => {
            let g = remove_clues(&st.su.to_bytes(), a as usize, rng);
            set!(move |_: &mut State| Sudoku::try_from(g).map_err(|e| format!("{e} {e:?}")))
        }
        "put_digit" => {
            let mut g = st.su.to_bytes();
            g[a as usize] = b as u8;
            set!(move |_: &mut State| Sudoku::from_bytes(g).map_err(|e| format!("{e} {e:?}")))
        }
        "swap" => Box::new(|s: &mut State| {
            std::mem::swap(&mut s.su, &mut s.other);
            1
        }),
        "n_clues" => q!(|s: &mut State| s.su.n_clues()),
        "is_solved" => q!(|s: &mut State| s.su.is_solved()),
        "some_sol" => q!(|s: &mut State| s.su.some_solution()),
        "solution" => q!(|s: &mut State| s.su.solution()),
        "unique" => q!(|s: &mut State| s.su.is_uniquely_solvable()),
        "count" => {
            let l = limit(a, &st.su);
            q!(move |s: &mut State| s.su.solutions_count_up_to(l))
        }
        "list" => {
            let l = limit(a, &st.su);
            q!(move |s: &mut State| s.su.solutions_up_to(l))
        }
        "buffer" => {
            let l = limit(b, &st.su);
            q!(move |s: &mut State| {
                let mut buf = vec![[77u8; 81]; a as usize];
                let n = s.su.solutions_up_to_buffer(&mut buf, l);
                (n, buf)
            })
        }
        "canonical" => q!(|s: &mut State| s.su.canonicalized()),
        "print_line" => q!(|s: &mut State| {
            let l = s.su.to_str_line();
            (l.to_string(), format!("{:?}", l), l.len(), format!("{:>100}|{:<90}|{:.3}", l, s.su, l))
        }),
        "print_block" => q!(|s: &mut State| (s.su.display_block().to_string(), format!("{:5}", s.su.display_block()))),
        "debug" => q!(|s: &mut State| format!("{:?} {:#?} {}", s.su, s.su, s.su)),
        "to_bytes" => q!(|s: &mut State| {
            let x: [u8; 81] = s.su.into();
            (s.su.to_bytes().to_vec(), x.to_vec())
        }),
        "iter" => q!(|s: &mut State| {
            let mut it = s.su.iter();
            let first = it.next();
            (first, it.size_hint(), it.collect::<Vec<_>>(), s.su.iter().count(), s.su.iter().last(), s.su.iter().nth(81), s.su.iter().nth(80))
        }),
        "to_json" => q!(|s: &mut State| serde_json::to_string(&s.su).unwrap()),
        "to_bin" => q!(|s: &mut State| bincode::serialize(&s.su).unwrap()),
        "compare" => q!(|s: &mut State| {
            let (a, b) = (s.su, s.other);
            (a == b, a.cmp(&b), a.partial_cmp(&b), a < b, a.max(b), dig(&a.to_str_line()), a.to_str_line().cmp(&b.to_str_line()), a.to_str_line() == b.to_str_line())
        }),
        "new_solver" => {
            let clues = sud(&grid(if b % 2 == 0 { 9 } else { 0 }, rng));
            Box::new(move |s: &mut State| {
                s.so = Some(match a {
                    0 => StrategySolver::from_sudoku(s.su),
                    1 => StrategySolver::from_sudoku_and_clues(s.su, clues),
                    _ => StrategySolver::from_sudoku_and_clues(s.su, s.other),
                });
                1
            })
        }
        "from_states" => {
            let cs = cell_states(&posn(a, rng));
            Box::new(move |s: &mut State| {
                s.so = Some(StrategySolver::from_grid_state(cs));
                1
            })
        }
        "rebuild" => Box::new(|s: &mut State| {
            let gs = s.so.as_ref().unwrap().grid_state();
            s.so = Some(StrategySolver::from_grid_state(gs));
            1
        }),
        "insert" => Box::new(move |s: &mut State| dig(&s.so.as_mut().unwrap().insert_candidate(Candidate::new(a as u8, b as u8)))),
        "to_sudoku" => Box::new(|s: &mut State| {
            s.su = s.so.as_mut().unwrap().to_sudoku();
            1
        }),
        "grid_state" => Box::new(|s: &mut State| solver_print(s.so.as_ref().unwrap())),
        "cell_state" => q!(move |s: &mut State| {
            let x = s.so.as_mut().unwrap().cell_state(Cell::new(a as u8));
            (format!("{x:?}"), format!("{x}|{x:4}|{x:<12}|"))
        }),
        "sv_solved" => q!(|s: &mut State| s.so.as_ref().unwrap().is_solved()),
        "sv_print" => q!(|s: &mut State| {
            let x = s.so.as_ref().unwrap();
            (x.to_string(), format!("{:3}", x))
        }),
        "sv_debug" => q!(|s: &mut State| format!("{:?}", s.so.as_ref().unwrap()).len() > 10),
        "solve" => {
            let l = strategies_of(a, rng);
            Box::new(move |s: &mut State| {
                let r = s.so.clone().unwrap().solve(&l);
                let ok = r.is_ok();
                let (g, d) = match r {
                    Ok(x) => x,
                    Err(x) => x,
                };
                let h = dig(&(ok, g, d.len()));
                s.de = Some(d);
                h
            })
        }
        "ded_len" => q!(|s: &mut State| (s.de.as_ref().unwrap().len(), s.de.as_ref().unwrap().is_empty())),
        "ded_get" => q!(move |s: &mut State| {
            let d = s.de.as_ref().unwrap();
            (d.get(a as usize).map(|x| format!("{:?} {:?}", x, x.strategy())), d.get(usize::MAX).is_none())
        }),
        "ded_iter" => q!(|s: &mut State| s.de.as_ref().unwrap().iter().map(|x| ded_json(&x).to_string()).collect::<Vec<_>>()),
        "ded_debug" => q!(|s: &mut State| format!("{:?}", s.de.as_ref().unwrap()).len() > 5),
        "digit_new" => q!(move |_: &mut State| (Digit::new_checked(a as u8), Digit::new(a as u8).get())),
        "cell_new" => q!(move |_: &mut State| (Cell::new_checked(a as u8), Cell::new(a as u8).get())),
        "row_new" => q!(move |_: &mut State| (Row::new_checked(a as u8), Row::new(a as u8).get())),
        "col_new" => q!(move |_: &mut State| (Col::new_checked(a as u8), Col::new(a as u8).get())),
        "block_new" => q!(move |_: &mut State| (Block::new_checked(a as u8), Block::new(a as u8).get())),
        "line_new" => q!(move |_: &mut State| (Line::new_checked(a as u8), Line::new(a as u8).get())),
        "house_new" => q!(move |_: &mut State| (House::new_checked(a as u8), House::new(a as u8).get())),
        "chute_new" => q!(move |_: &mut State| (Chute::new_checked(a as u8), Chute::new(a as u8).get())),
        "miniline_new" => q!(move |_: &mut State| (MiniLine::new_checked(a as u8), MiniLine::new(a as u8).get())),
        "candidate" => q!(move |_: &mut State| {
            let c = Candidate::new(a as u8, b as u8);
            (c.cell.get(), c.digit.get(), c.row().get(), c.col().get(), c.block().get())
        }),
        "digit_set" => q!(move |_: &mut State| {
            let (x, y) = (Set::<Digit>::from_bits(a as u16), Set::<Digit>::from_bits(b as u16));
            let v: Vec<u8> = (x & y).into_iter().map(|d| d.get()).collect();
            (x | y, x ^ y, !x, x.without(y), x.overlaps(y), x.contains(y), x.len(), x.unique().is_err(), v, x.is_full())
        }),
        "cell_set" => {
            let (x, y): (u128, u128) = (rng.gen(), rng.gen());
            let m = (1u128 << 81) - 1;
            q!(move |_: &mut State| {
                let (x, y) = (Set::<Cell>::from_bits(x & m), Set::<Cell>::from_bits(y & m));
                let v: Vec<u8> = (x & y).into_iter().map(|d| d.get()).collect();
                ((x | y).bits(), (!x).bits(), x.without(y).len(), x.overlaps(y), v)
            })
        }
        _ => panic!("harness: unknown operation {name}"),
    }
}

/// Runs a program; every operation's outcome with the contents of the registers as small numbers
fn run_program(ctx: &mut Ctx, ops: &[(String, A, A)], raw: bool, seen: &mut BTreeSet<String>) -> Option<(Vec<Value>, String)> {
    let mut st = State { su: sud(&[0; 81]), other: sud(&[0; 81]), so: None, de: None };
    let mut names: HashMap<u64, usize> = HashMap::new();
    let mut num = |h: u64| -> Value {
        if raw {
            // the same in all builds
            return json!(format!("{:x}", h));
        }
        let n = names.len() + 1;
        json!(*names.entry(h).or_insert(n))
    };
    let mut out = vec![];
    let mut msg = String::new();
    let mut rest = 1u64;
    let fp = |ctx: &mut Ctx, st: &State, name: &str| -> Option<(u64, u64)> {
        let su = dig(&st.su.to_bytes().to_vec());
        let so = match &st.so {
            None => 0,
            Some(s) => ctx.call("grid_state", &|| json!({"after": name}), || solver_print(s))?,
        };
        Some((su, so))
    };
    let mut before = fp(ctx, &st, "start")?;
    for (name, a, b) in ops {
        let all = match &st.so {
            // the whole state, caches included
            Some(x) => dig(&(rest, st.other.to_bytes().to_vec(), format!("{:?}", x))),
            None => dig(&(rest, st.other.to_bytes().to_vec())),
        };
        let f = prepare(name, *a, *b, &st);
        let inp = || json!({"program": ops, "at": out.len() + 1, "sudoku": line(&st.su.to_bytes())});
        let inp = inp();
        let r = ctx.try_call(name, &|| inp.clone(), || f(&mut st));
        seen.insert(name.clone());
        let after = fp(ctx, &st, name)?;
        let (o, res) = match r {
            Ok(h) => ("ok", h),
            Err(m) => {
                msg = m;
                ("panic", 0)
            }
        };
        ctx.stat(name, 1);
        let z = |h: u64, num: &mut dyn FnMut(u64) -> Value| if h == 0 { if raw { json!("0") } else { json!(0) } } else { num(h) };
        out.push(json!([name, a, b, o, num(before.0), z(before.1, &mut num), num(after.0), z(after.1, &mut num), z(res, &mut num), num(all)]));
        if o == "panic" && !name.ends_with("_new") && name != "candidate" {
            break;
        }
        if name == "solve" {
            rest = dig(&(rest & 1, res, before.1, a, b));
        }
        before = after;
    }
    Some((out, msg))
}

/// The library as one caller sees it: registers, and what is recorded of each operation (as in run_program, raw).
struct Caller {
    st: State,
    before: (u64, u64),
    rest: u64,
    over: bool,
    out: Vec<Value>,
}
type Ops = Vec<(String, A, A)>;

impl Caller {
    fn new() -> Caller {
        let st = State { su: sud(&[0; 81]), other: sud(&[0; 81]), so: None, de: None };
        let mut c = Caller { st, before: (0, 0), rest: 1, over: false, out: vec![] };
        c.before = c.print();
        c
    }
    fn print(&self) -> (u64, u64) {
        let so = match &self.st.so {
            None => 0,
            Some(s) => catch_unwind(AssertUnwindSafe(|| solver_print(s))).unwrap_or(7),
        };
        (dig(&self.st.su.to_bytes().to_vec()), so)
    }
    fn step(&mut self, name: &str, a: A, b: A) {
        if self.over {
            return;
        }
        let all = match &self.st.so {
            Some(x) => dig(&(self.rest, self.st.other.to_bytes().to_vec(), format!("{:?}", x))),
            None => dig(&(self.rest, self.st.other.to_bytes().to_vec())),
        };
        let f = prepare(name, a, b, &self.st);
        let before = self.print();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut self.st)));
        let after = self.print();
        let (o, res) = match r {
            Ok(h) => ("ok", h),
            Err(_) => ("panic", 0),
        };
        let z = |h: u64| json!(format!("{:x}", h));
        self.out.push(json!([name, a, b, o, z(before.0), z(before.1), z(after.0), z(after.1), z(res), z(all)]));
        self.over = o == "panic" && !name.ends_with("_new") && name != "candidate";
        if name == "solve" {
            self.rest = dig(&(self.rest & 1, res, before.1, a, b));
        }
        self.before = after;
    }
    fn all(ops: &Ops) -> Vec<Value> {
        let mut c = Caller::new();
        ops.iter().for_each(|(n, a, b)| c.step(n, *a, *b));
        c.out
    }
}

fn thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap()
}

/// the callers take turns as scheduled, each in a thread of its own
fn in_turns(sched: &[(usize, String, A, A)], n: usize) -> Vec<Vec<Value>> {
    let mut links = vec![];
    for _ in 0..n {
        let (tx, rx) = std::sync::mpsc::channel::<(String, A, A)>();
        let (dtx, drx) = std::sync::mpsc::channel::<()>();
        let h = thread(move || {
            let mut c = Caller::new();
            while let Ok((name, a, b)) = rx.recv() {
                c.step(&name, a, b);
                let _ = dtx.send(());
            }
            c.out
        });
        links.push((tx, drx, h));
    }
    for (c, name, a, b) in sched {
        let (tx, drx, _) = &links[*c];
        let _ = tx.send((name.clone(), *a, *b));
        let _ = drx.recv();
    }
    links
        .into_iter()
        .map(|(tx, _, h)| {
            drop(tx);
            h.join().unwrap_or_default()
        })
        .collect()
}

/// all at once
fn at_once(progs: &[Ops]) -> Vec<Vec<Value>> {
    let gate = std::sync::Arc::new(std::sync::Barrier::new(progs.len()));
    let hs: Vec<_> = progs
        .iter()
        .map(|p| {
            let (p, gate) = (p.clone(), gate.clone());
            thread(move || {
                gate.wait();
                Caller::all(&p)
            })
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
}

fn schedules() -> Vec<Vec<(usize, String, A, A)>> {
    let Ok(t) = std::fs::read_to_string("schedules.json") else { return vec![] };
    t.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

/// few operations on few grids, all the time in several threads
fn hammer(ctx: &mut Ctx) {
    let mut rng = ctx.rng(261);
    let ops: [&[(&str, A, A)]; 16] = [
        &[("canonical", 0, 0)],
        &[("canonical", 0, 0), ("solution", 0, 0)],
        &[("take_canon", 0, 0)],
        &[("solution", 0, 0)],
        &[("take_sol", 0, 0), ("is_solved", 0, 0)],
        &[("some_sol", 0, 0)],
        &[("count", 1000, 0)],
        &[("count", 7, 0)],
        &[("unique", 0, 0)],
        &[("print_line", 0, 0), ("print_block", 0, 0)],
        &[("to_json", 0, 0), ("to_bin", 0, 0)],
        &[("n_clues", 0, 0), ("iter", 0, 0), ("debug", 0, 0)],
        &[("new_solver", 0, 0), ("solve", 3, 1)],
        &[("new_solver", 0, 0), ("grid_state", 0, 0), ("to_sudoku", 0, 0)],
        &[("new_solver", 0, 0), ("solve", 0, 2), ("ded_iter", 0, 0)],
        &[("new_solver", 0, 0), ("sv_solved", 0, 0), ("sv_debug", 0, 0)],
    ];
    let (rounds, per) = if ctx.thorough { (60, 6000) } else { (6, 2500) };
    for _ in 0..rounds {
        let grids: Vec<Grid> = (0..4).map(|_| grid(rng.gen_range(0..10), &mut rng)).collect();
        let mine: Vec<usize> = (0..4).map(|_| rng.gen_range(0..ops.len())).collect();
        let jobs: Vec<(Grid, Ops)> = grids
            .iter()
            .flat_map(|g| mine.iter().map(|o| (*g, ops[*o].iter().map(|x| (x.0.to_string(), x.1, x.2)).collect())))
            .collect();
        let run = |j: &(Grid, Ops)| {
            let mut c = Caller::new();
            c.st.su = sud(&j.0);
            c.before = c.print();
            j.1.iter().for_each(|(n, a, b)| c.step(n, *a, *b));
            c.out
        };
        let inp = || json!({"grids": grids.iter().map(line).collect::<Vec<_>>(), "operations": mine});
        let Some(alone) = ctx.call("operations one after the other", &inp, || jobs.iter().map(run).collect::<Vec<_>>()) else { continue };
        let seed: u64 = rng.gen();
        let others = ctx.call("operations at once", &inp, || {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..3u64)
                    .map(|t| {
                        let (jobs, alone, run) = (&jobs, &alone, &run);
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                            let mut rng = StdRng::seed_from_u64(seed ^ t);
                            let mut bad = vec![];
                            let t0 = std::time::Instant::now();
                            for _ in 0..per {
                                if t0.elapsed().as_secs() >= 4 {
                                    break; // a busy machine
                                }
                                let j = rng.gen_range(0..jobs.len());
                                let r = run(&jobs[j]);
                                if r != alone[j] && bad.len() < 3 {
                                    bad.push((j, r));
                                }
                            }
                            bad
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.unwrap().join().unwrap_or_default()).collect::<Vec<_>>()
            })
        });
        let Some(others) = others else { continue };
        ctx.n_calls += per * 3;
        ctx.stat("operations at once", per * 3);
        for (j, r) in alone.iter().enumerate() {
            let mut rs = vec![r];
            rs.extend(others.iter().filter(|x| x.0 == j).map(|x| &x.1));
            if rs.len() > 1 || j % 4 == 0 {
                ctx.suspicious += (rs.len() > 1) as u64;
                ctx.emit(json!({"k": "par", "p": "P26", "grid": line(&jobs[j].0), "runs": rs, "kinds": [["alone"], ["at once"]]}));
            }
        }
    }
}

/// P26: the same programs alone, interleaved, at once, and again later
fn parallel(ctx: &mut Ctx) {
    let mut rng = ctx.rng(260);
    let mut all: Vec<Vec<(usize, String, A, A)>> = schedules()
        .into_iter()
        .enumerate()
        .filter(|x| ctx.mine(x.0))
        .map(|x| x.1.into_iter().map(|(c, n, a, b)| (c - 1, n, a, b)).collect())
        .collect();
    ctx.stat("schedules from the specification", all.len() as u64);
    for i in 0..ctx.part(if ctx.thorough { 8000 } else { 700 }) {
        let n = 3;
        // programs with parts in common
        let len = if i == 0 { 250 } else if i % 5 == 0 { 40 } else { 14 };
        let common = random_program(&mut rng, len / 2, true);
        let mut ps: Vec<Ops> = (0..n).map(|_| [common.clone(), random_program(&mut rng, len, true)].concat()).collect();
        ps.iter_mut().for_each(|p| p.reverse());
        let mut s = vec![];
        while ps.iter().any(|p| !p.is_empty()) {
            let c = rng.gen_range(0..n);
            for _ in 0..*[1, 1, 1, 2, 5].get(rng.gen_range(0..5usize)).unwrap() {
                if let Some((name, a, b)) = ps[c].pop() {
                    s.push((c, name, a, b));
                }
            }
        }
        all.push(s);
    }
    let mut seen = BTreeSet::new();
    let mut later: Vec<(Ops, Vec<Value>)> = vec![];
    for (i, sched) in all.iter().enumerate() {
        let n = 1 + sched.iter().map(|o| o.0).max().unwrap_or(0);
        let progs: Vec<Ops> = (0..n).map(|c| sched.iter().filter(|o| o.0 == c).map(|o| (o.1.clone(), o.2, o.3)).collect()).collect();
        seen.extend(sched.iter().map(|o| o.1.clone()));
        let inp = || json!({"schedule": sched});
        let Some(solo) = ctx.call("programs one after the other", &inp, || progs.iter().map(Caller::all).collect::<Vec<_>>()) else { continue };
        let Some(inter) = ctx.call("interleaved programs", &inp, || in_turns(sched, n)) else { continue };
        let Some(free) = ctx.call("programs at once", &inp, || at_once(&progs)) else { continue };
        // the same program in all threads
        let twin: Vec<Ops> = (0..3).map(|_| progs[i % n].clone()).collect();
        let Some(same) = ctx.call("the same program at once", &inp, || at_once(&twin)) else { continue };
        ctx.n_calls += (sched.len() * 3 + twin.len() * twin[0].len()) as u64;
        for c in 0..n {
            let mut runs = vec![solo[c].clone(), inter[c].clone(), free[c].clone()];
            if c == i % n {
                runs.extend(same.iter().cloned());
            }
            let kinds = ["alone", "in turns", "at once", "in all threads", "in all threads", "in all threads"];
            // equal runs are recorded once
            let (mut rs, mut ks): (Vec<&Vec<Value>>, Vec<Vec<&str>>) = (vec![], vec![]);
            for (r, k) in runs.iter().zip(kinds) {
                match rs.iter().position(|x| *x == r) {
                    Some(x) => ks[x].push(k),
                    None => {
                        rs.push(r);
                        ks.push(vec![k]);
                    }
                }
            }
            ctx.suspicious += (rs.len() > 1) as u64;
            let e = json!({"k": "par", "p": "P26", "runs": rs, "kinds": ks});
            if i % 60 == 5 && c == 0 && solo[c].len() > 3 {
                let mut x = solo[c].clone();
                let k = rng.gen_range(0..x.len());
                x[k][8] = json!("feed");
                ctx.canary(json!({"k": "par", "p": "P26", "runs": [solo[c], x], "kinds": [["alone"], ["at once"]]}));
            }
            ctx.emit(e);
        }
        later.push((progs[0].clone(), solo[0].clone()));
    }
    // again, after everything else and in another order
    while !later.is_empty() {
        let (p, r) = later.swap_remove(rng.gen_range(0..later.len()));
        let inp = || json!({"program": p});
        if let Some(x) = ctx.call("programs one after the other", &inp, || Caller::all(&p)) {
            ctx.n_calls += p.len() as u64;
            if x != r || later.len() % 10 == 0 {
                ctx.emit(json!({"k": "par", "p": "P26", "runs": [r, x], "kinds": [["alone"], ["later"]]}));
            }
        }
    }
    ctx.emit(json!({"k":"cover","det":true,"names":seen.iter().collect::<Vec<_>>()}));
}

fn generated() -> Vec<Vec<(String, A, A)>> {
    let Ok(t) = std::fs::read_to_string("programs.json") else { return vec![] };
    t.lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let det = prop == "P24";
    if prop == "P26" {
        parallel(ctx);
        hammer(ctx);
    }
    let mut rng = ctx.rng(if det { 240 } else { 250 });
    let mut progs: Vec<Vec<(String, A, A)>> = generated().into_iter().enumerate().filter(|x| ctx.mine(x.0)).map(|x| x.1).collect();
    ctx.stat("programs from the specification", progs.len() as u64);
    let n = ctx.part(match (det, ctx.thorough) {
        (true, false) => 1200,
        (true, true) => 15000,
        (false, false) if prop == "P26" => 1000,
        (false, false) => 2400,
        (false, true) => 40000,
    });
    for i in 0..n {
        let len = if i % 10 == 0 { 60 } else { 24 };
        progs.push(random_program(&mut rng, len, det));
    }
    let mut seen = BTreeSet::new();
    for (i, p) in progs.iter().enumerate() {
        let Some((ops, msg)) = run_program(ctx, p, det, &mut seen) else { continue };
        if !det && i % 200 == 9 && ops.len() > 3 {
            let mut c = ops.clone();
            let k = rng.gen_range(1..c.len());
            if i % 400 == 9 && prop == "P26" {
                c[k][4] = json!(999);
            } else {
                c[k][3] = json!("panic");
                c.truncate(k + 1);
                if c[k][0].as_str().unwrap().ends_with("_new") || c[k][0] == json!("candidate") {
                    c[k][3] = json!("lost");
                }
            }
            ctx.canary(json!({"k":"prog","p":prop,"ops":c,"msg":""}));
        }
        ctx.emit(json!({"k":"prog","p":prop,"ops":ops,"msg":msg}));
    }
    ctx.emit(json!({"k":"cover","det":det,"names":seen.iter().collect::<Vec<_>>()}));
    if prop == "P25" && ctx.shard == 0 {
        special(ctx);
    }
}

/// Calls that are not operations of programs
fn special(ctx: &mut Ctx) {
    // a strategy that is offered but not implemented (known finding)
    let inp = || json!({"strategies": ["AvoidableRectangles"], "sudoku": "empty"});
    let r = ctx.try_call("StrategySolver::solve", &inp, || {
        let _ = StrategySolver::from_sudoku(sud(&[0; 81])).solve(&[Strategy::AvoidableRectangles]);
    });
    if let Err(m) = r {
        ctx.emit(json!({"k":"panic","op":"StrategySolver::solve","input":inp(),"msg":m,"fid":"avoidable-rectangles"}));
    }
}
