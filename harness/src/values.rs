//! P27: comparison, hashing and copies of values.
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::sud;
use crate::strategies::{ded_json, digits, strategy};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::*;
use sudoku::errors::{BlockParseError, InvalidEntry, LineParseError, NotEnoughRows};
use sudoku::strategy::{Strategy, StrategySolver};
use sudoku::Symmetry;

type Item<T> = (Value, T);

fn fp<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn no_hash<T>(_: &T) -> u64 {
    0
}

/// 1: <, 2: <=, 4: >, 8: >=
fn rels<T: PartialOrd>(a: &T, b: &T) -> u8 {
    (a < b) as u8 | (a <= b) as u8 * 2 | (a > b) as u8 * 4 | (a >= b) as u8 * 8
}

/// (cmp, partial_cmp, relations)
fn ordered<T: Ord>(a: &T, b: &T) -> (i8, i8, u8) {
    (a.cmp(b) as i8, a.partial_cmp(b).map_or(7, |c| c as i8), rels(a, b))
}

fn not_ordered<T>(_: &T, _: &T) -> (i8, i8, u8) {
    (0, 0, 0)
}

fn table<T: PartialEq + Clone>(
    ctx: &mut Ctx,
    t: &str,
    order: &str,
    items: &[Item<T>],
    hash: impl Fn(&T) -> u64,
    ord: impl Fn(&T, &T) -> (i8, i8, u8),
    // the content of a copy
    look: impl Fn(&T) -> Value,
) {
    let inp = || json!({"type": t, "values": items.iter().map(|x| &x.0).collect::<Vec<_>>()});
    let n = items.len();
    let sq = |f: &dyn Fn(&T, &T) -> Value| -> Value {
        items.iter().map(|a| items.iter().map(|b| f(&a.1, &b.1)).collect::<Vec<_>>()).collect::<Vec<_>>().into()
    };
    let e = ctx.call("comparison", &inp, || {
        let copies: Vec<T> = items.iter().map(|x| x.1.clone()).collect();
        let mut ids = HashMap::new();
        let h: Vec<usize> = items
            .iter()
            .map(|x| {
                let k = ids.len();
                *ids.entry(hash(&x.1)).or_insert(k)
            })
            .collect();
        let mut e = json!({"k": "values", "t": t, "order": order, "c": items.iter().map(|x| &x.0).collect::<Vec<_>>(), "h": h,
            "eq": sq(&|a, b| json!(a == b)), "ne": sq(&|a, b| json!(a != b)),
            "copy": copies.iter().map(&look).collect::<Vec<_>>(),
            "same": (0..n).map(|i| copies[i] == items[i].1 && items[i].1 == copies[i] && hash(&copies[i]) == hash(&items[i].1)).collect::<Vec<_>>()});
        if order != "none" {
            e["cmp"] = sq(&|a, b| json!(ord(a, b).0));
            e["pcmp"] = sq(&|a, b| json!(ord(a, b).1));
            e["rel"] = sq(&|a, b| json!(ord(a, b).2));
        }
        e
    });
    let Some(e) = e else { return };
    ctx.n_calls += (n * n) as u64;
    ctx.stat(&format!("values.{t}"), n as u64);
    let k = ctx.n_calls % 3;
    if order != "none" && n > 2 && k == 0 {
        let mut c = e.clone();
        c["cmp"][1][2] = json!(if e["cmp"][1][2] == json!(1) { 0 } else { 1 });
        ctx.canary(c);
    } else if n > 2 && k == 1 {
        let mut c = e.clone();
        c["eq"][2][0] = json!(e["eq"][2][0] == json!(false));
        ctx.canary(c);
    }
    ctx.emit(e);
}

/// grids that are alike
fn alike(rng: &mut StdRng, n: usize) -> Vec<Grid> {
    let mut v = vec![match rng.gen_range(0..4) {
        0 => random_grid(rng),
        1 => [0; 81],
        2 => random_solved(rng),
        _ => *special_grids(rng).choose(rng).unwrap(),
    }];
    while v.len() < n {
        let mut g = *v.choose(rng).unwrap();
        match rng.gen_range(0..6) {
            0 => {}
            1 => {
                let c = [0, 80, 79, 1, 8, 9, rng.gen_range(0..81)][rng.gen_range(0..7)];
                g[c] = rng.gen_range(0..10);
            }
            2 => {
                // opposite differences in two cells
                let (a, b) = (rng.gen_range(0..81), rng.gen_range(0..81));
                g.swap(a, b);
            }
            3 => g.reverse(),
            4 => {
                let c = rng.gen_range(0..81);
                g[c] = if g[c] == 9 { 8 } else { g[c] + 1 };
            }
            _ => g = random_grid(rng),
        }
        v.push(g);
    }
    v
}

fn grids(ctx: &mut Ctx, rng: &mut StdRng) {
    let n = if ctx.thorough { 20 } else { 14 };
    let v = alike(rng, n);
    let c = |g: &Grid| json!(g.to_vec());
    // the same grids, obtained in different ways
    let made: Vec<Item<sudoku::Sudoku>> = v
        .iter()
        .enumerate()
        .map(|(i, g)| {
            (c(g), if i % 2 == 0 { sud(g) } else { sudoku::Sudoku::from_str_line(&line(g)).unwrap() })
        })
        .collect();
    table(ctx, "Sudoku", "lex", &made, fp, ordered, |s| json!(s.to_bytes().to_vec()));
    let lines: Vec<_> = made.iter().map(|x| (x.0.clone(), x.1.to_str_line())).collect();
    let read = |s: &str| json!(s.bytes().map(|b| if b == b'.' { 0 } else { b.wrapping_sub(b'0') }).collect::<Vec<_>>());
    table(ctx, "SudokuLine", "lex", &lines, fp, ordered, |s| read(s));
    let blocks: Vec<_> = made.iter().map(|x| (x.0.clone(), x.1.display_block())).collect();
    table(ctx, "SudokuBlock", "total", &blocks, fp, ordered, |s| {
        read(&s.to_string().chars().filter(|c| c.is_ascii_digit() || "_.".contains(*c)).map(|c| if c == '_' { '.' } else { c }).collect::<String>())
    });
    // collections rely on all of it
    let r = ctx.call("collections", &|| json!(v.iter().map(line).collect::<Vec<_>>()), || {
        let h: HashSet<_> = made.iter().map(|x| x.1).collect();
        let b: BTreeSet<_> = made.iter().map(|x| x.1).collect();
        let mut s: Vec<_> = made.iter().map(|x| x.1).collect();
        s.sort();
        let w = |x: &sudoku::Sudoku| x.to_bytes().to_vec();
        json!({"k": "coll", "c": made.iter().map(|x| &x.0).collect::<Vec<_>>(), "hash": h.len(), "found": made.iter().all(|x| h.contains(&x.1) && b.contains(&x.1)),
            "tree": b.iter().map(w).collect::<Vec<_>>(), "sorted": s.iter().map(w).collect::<Vec<_>>(),
            "max": w(&made.iter().map(|x| x.1).max().unwrap()), "min": w(&made.iter().map(|x| x.1).min().unwrap())})
    });
    if let Some(e) = r {
        let mut c = e.clone();
        c["hash"] = json!(0);
        if rng.gen_bool(0.1) {
            ctx.canary(c);
        }
        ctx.emit(e);
    }
}

fn sets(ctx: &mut Ctx, rng: &mut StdRng) {
    macro_rules! kind {
        ($t:expr, $n:expr, $mk:expr, $ix:expr, $order:expr, $ord:ident) => {{
            let mk = $mk;
            let mut v: Vec<BTreeSet<u8>> = vec![BTreeSet::new(), (0..$n).collect()];
            while v.len() < 12 {
                let mut s = v.choose(rng).unwrap().clone();
                for _ in 0..rng.gen_range(0..3) {
                    let x = [0, $n - 1, rng.gen_range(0..$n)][rng.gen_range(0..3)];
                    if !s.remove(&x) {
                        s.insert(x);
                    }
                }
                if rng.gen_bool(0.2) {
                    s = (0..$n).filter(|_| rng.gen_bool(0.5)).collect();
                }
                v.push(s);
            }
            let items: Vec<_> = v
                .iter()
                .map(|s| {
                    let mut order: Vec<u8> = s.iter().cloned().collect();
                    order.shuffle(rng);
                    let set = if rng.gen_bool(0.5) {
                        order.iter().fold(Set::NONE, |a, x| a | mk(*x).as_set())
                    } else {
                        (0..$n).filter(|x| !s.contains(x)).fold(Set::ALL, |a, x| a ^ mk(x).as_set())
                    };
                    (json!(s), set)
                })
                .collect();
            table(ctx, concat!("Set<", $t, ">"), $order, &items, fp, $ord, |s| json!(s.into_iter().map($ix).collect::<Vec<_>>()));
            let iters: Vec<_> = items
                .iter()
                .map(|x| {
                    let mut it = x.1.into_iter();
                    let k = rng.gen_range(0..3);
                    (0..k).for_each(|_| drop(it.next()));
                    (json!(x.0.as_array().unwrap().iter().skip(k).collect::<Vec<_>>()), it)
                })
                .collect();
            table(ctx, concat!("Iter<", $t, ">"), $order, &iters, fp, $ord, |s| json!(s.clone().map($ix).collect::<Vec<_>>()));
        }};
    }
    kind!("Digit", 9, |x| Digit::new(x + 1), |d: Digit| d.get() - 1, "total", ordered);
    kind!("Cell", 81, Cell::new, |d: Cell| d.get(), "total", ordered);
    kind!("Line", 18, Line::new, |d: Line| d.get(), "total", ordered);
    kind!("House", 27, House::new, |d: House| d.get(), "total", ordered);
    kind!("Position<House>", 9, Position::<House>::new, |d: Position<House>| d.get(), "none", not_ordered);
    kind!("Position<Line>", 9, Position::<Line>::new, |d: Position<Line>| d.get(), "none", not_ordered);
}

fn small(ctx: &mut Ctx, rng: &mut StdRng) {
    macro_rules! number {
        ($($T:ident),*) => {$({
            let all: Vec<$T> = $T::all().collect();
            let mut items: Vec<Item<$T>> = (0..14).map(|_| *all.choose(rng).unwrap()).map(|x| (json!([x.get()]), x)).collect();
            items.push(items[0].clone());
            table(ctx, stringify!($T), "lex", &items, fp, ordered, |x| json!([x.get()]));
        })*};
    }
    number!(Digit, Cell, Row, Col, Block, Line, House, MiniRow, MiniCol, MiniLine, Band, Stack, Chute);
    let items: Vec<_> = (0..16)
        .map(|_| {
            let (a, b): (u8, u8) = ([0, 1, 79, 80, rng.gen_range(0..81)][rng.gen_range(0..5)], rng.gen_range(1..10));
            (json!([a, b]), Candidate::new(a, b))
        })
        .collect();
    table(ctx, "Candidate", "lex", &items, fp, ordered, |x| json!([x.cell.get(), x.digit.get()]));
    let items: Vec<_> = (0..27).map(|i| (json!([i]), House::new(i).categorize())).chain([(json!([3]), House::new(3).categorize())]).collect();
    let num = |h: &HouseType| match h {
        HouseType::Row(r) => json!([r.get()]),
        HouseType::Col(r) => json!([9 + r.get()]),
        HouseType::Block(r) => json!([18 + r.get()]),
    };
    table(ctx, "HouseType", "none", &items, fp, not_ordered, num);
    let items: Vec<_> = (0..18).map(|i| (json!([i]), Line::new(i).categorize())).chain([(json!([12]), Line::new(12).categorize())]).collect();
    let num = |h: &LineType| match h {
        LineType::Row(r) => json!([r.get()]),
        LineType::Col(r) => json!([9 + r.get()]),
    };
    table(ctx, "LineType", "none", &items, fp, not_ordered, num);
    let items: Vec<_> = (0..9).chain([4]).map(|i| (json!([i]), Position::<House>::new(i))).collect();
    table(ctx, "Position", "none", &items, fp, not_ordered, |p| json!([p.get()]));
    let all = [
        Symmetry::VerticalMirror,
        Symmetry::HorizontalMirror,
        Symmetry::VerticalAndHorizontalMirror,
        Symmetry::DiagonalMirror,
        Symmetry::AntidiagonalMirror,
        Symmetry::BidiagonalMirror,
        Symmetry::QuarterRotation,
        Symmetry::HalfRotation,
        Symmetry::Dihedral,
        Symmetry::None,
    ];
    let items: Vec<_> = (0..10).chain([0, 3, 9]).map(|i| (json!([i]), all[i])).collect();
    table(ctx, "Symmetry", "none", &items, fp, not_ordered, |x| json!([all.iter().position(|y| std::mem::discriminant(x) == std::mem::discriminant(y))]));
    // 0 and a digit, or 1 and candidates
    let cs = |x: &CellState| match x {
        CellState::Digit(d) => json!([0, d.get()]),
        CellState::Candidates(c) => json!([vec![1], digits(*c)].concat()),
    };
    let items: Vec<_> = (0..18)
        .map(|i| {
            let x = if i % 2 == 0 {
                CellState::Digit(Digit::new(rng.gen_range(1..10)))
            } else {
                CellState::Candidates(Set::from_bits(if i % 3 == 0 { 1 << rng.gen_range(0..9) } else { rng.gen_range(0..512) }))
            };
            (cs(&x), x)
        })
        .collect();
    table(ctx, "CellState", "none", &items, fp, not_ordered, cs);
    // errors
    let chars = ['a', 'x', '\u{e9}', '\0'];
    let inv = |rng: &mut StdRng| InvalidEntry { cell: rng.gen_range(0..4) * 20, ch: *chars.choose(rng).unwrap() };
    let items: Vec<_> = (0..14).map(|_| inv(rng)).map(|x| (json!([x.cell, x.ch as u32]), x)).collect();
    table(ctx, "InvalidEntry", "none", &items, fp, not_ordered, |x| json!([x.cell, x.ch as u32]));
    let le = |x: &LineParseError| match x {
        LineParseError::InvalidEntry(e) => json!([0, e.cell, e.ch as u32]),
        LineParseError::NotEnoughCells(n) => json!([1, n]),
        LineParseError::TooManyCells => json!([2]),
        LineParseError::MissingCommentDelimiter => json!([3]),
    };
    let items: Vec<_> = (0..16)
        .map(|_| match rng.gen_range(0..5) {
            0 | 1 => LineParseError::InvalidEntry(inv(rng)),
            2 => LineParseError::NotEnoughCells(rng.gen_range(0..3) * 40),
            3 => LineParseError::TooManyCells,
            _ => LineParseError::MissingCommentDelimiter,
        })
        .map(|x| (le(&x), x))
        .collect();
    table(ctx, "LineParseError", "none", &items, fp, not_ordered, le);
    let items: Vec<_> = (0..9).chain([0, 8]).map(|i| (json!([i]), NotEnoughRows(i))).collect();
    table(ctx, "NotEnoughRows", "none", &items, fp, not_ordered, |x| json!([x.0]));
    let be = |x: &BlockParseError| json!([format!("{:?}", x)]);
    let texts: Vec<String> = (0..14)
        .map(|_| {
            let mut rows = vec!["1........"; [9, 9, 8, 3, 10][rng.gen_range(0..5)]];
            let k = rng.gen_range(0..rows.len());
            rows[k] = ["1........", "1.......x", "x........", "1.......", "1...", "1.........", "1..|...|.."][rng.gen_range(0..7)];
            rows.join("\n")
        })
        .collect();
    let r = ctx.call("from_str_block", &|| json!(texts), || texts.iter().filter_map(|t| sudoku::Sudoku::from_str_block(t).err()).collect::<Vec<_>>());
    if let Some(v) = r {
        let items: Vec<_> = v.into_iter().map(|x| (be(&x), x)).collect();
        table(ctx, "BlockParseError", "none", &items, fp, not_ordered, be);
    }
}

/// deductions of several runs, and copies of solvers
fn solvers(ctx: &mut Ctx, rng: &mut StdRng) {
    let sol = random_solved(rng);
    let mut p = minimal_puzzle(&sol, rng);
    if rng.gen_bool(0.5) {
        let k = rng.gen_range(0..12);
        p = add_clues(&p, &sol, k, rng);
    }
    let inp = || json!([line(&p)]);
    let lists: Vec<Vec<usize>> = (0..3).map(|_| (0..rng.gen_range(1..6)).map(|_| rng.gen_range(0..13)).collect()).collect();
    let run = |list: &[usize]| {
        let st: Vec<Strategy> = list.iter().map(|&i| strategy(i)).collect();
        match StrategySolver::from_sudoku(sud(&p)).solve(&st) {
            Ok(x) | Err(x) => x.1,
        }
    };
    let Some(ds) = ctx.call("solve", &inp, || [0, 0, 1, 2].iter().map(|&i| run(&lists[i])).collect::<Vec<_>>()) else { return };
    // runs with the same strategies give equal histories
    let full = |d: &sudoku::strategy::deduction::Deductions| json!([format!("{:?}", d)]);
    let items: Vec<_> = ds.iter().map(|d| (full(d), d.clone())).collect();
    table(ctx, "Deductions", "none", &items, fp, not_ordered, full);
    let mut all: Vec<_> = ds.iter().flat_map(|d| d.iter()).collect();
    all.shuffle(rng);
    all.truncate(18);
    let one = |d: &sudoku::strategy::Deduction<&[Candidate]>| json!([ded_json(d).to_string()]);
    let items: Vec<_> = all.iter().map(|d| (one(d), *d)).collect();
    table(ctx, "Deduction", "none", &items, fp, not_ordered, one);
    // copies of a solver go their own way
    let print = |s: &StrategySolver| -> Value {
        let mut w = s.clone();
        let g = w.grid_state();
        json!([g.iter().map(|c| match c {
            CellState::Digit(d) => 1000 + d.get() as u16,
            CellState::Candidates(c) => c.bits(),
        }).collect::<Vec<_>>(), w.to_sudoku().to_bytes().to_vec()])
    };
    let moves: Vec<Candidate> = (0..4).map(|_| {
        let c = rng.gen_range(0..81);
        Candidate::new(c as u8, if rng.gen_bool(0.8) { sol[c] } else { rng.gen_range(1..10) })
    }).collect();
    let early = rng.gen_range(0..3);
    let e = ctx.call("clone", &|| json!([line(&p), format!("{:?}", moves)]), || {
        let mut s = StrategySolver::from_sudoku(sud(&p));
        moves[..early].iter().for_each(|m| drop(s.insert_candidate(*m)));
        if early == 1 {
            s.is_solved();
        }
        let mut c = s.clone();
        let (s0, c0) = (print(&s), print(&c));
        moves[2..].iter().for_each(|m| drop(c.insert_candidate(*m)));
        let (s1, c1) = (print(&s), print(&c));
        moves[2..].iter().for_each(|m| drop(s.insert_candidate(*m)));
        let (s2, c2) = (print(&s), print(&c));
        json!({"k": "clone", "o": [s0, s1, s2], "c": [c0, c1, c2]})
    });
    if let Some(e) = e {
        if rng.gen_bool(0.05) {
            let mut c = e.clone();
            c["o"][1] = json!([[0], [0]]);
            ctx.canary(c);
        }
        ctx.emit(e);
    }
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(270);
    for i in 0..ctx.part(if ctx.thorough { 3000 } else { 200 }) {
        grids(ctx, &mut rng);
        if i % 2 == 0 {
            sets(ctx, &mut rng);
            small(ctx, &mut rng);
        }
        solvers(ctx, &mut rng);
    }
}
