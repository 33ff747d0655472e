//! P16-P18: runs of the strategy solver.
use crate::corpus::*;
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::sud;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use sudoku::bitset::Set;
use sudoku::board::positions::{House, HouseType, Line, LineType};
use sudoku::board::{Candidate, CellState, Digit};
use sudoku::strategy::{deduction::Deductions, Deduction, Strategy, StrategySolver};

pub const ALL: usize = 255;

/// position: digit per cell or 0, and mask (bits 1..9) of the candidates that are not excluded
#[derive(Clone)]
pub struct Posn {
    pub g: Grid,
    pub m: [u16; 81],
    pub plain: bool, // from a sudoku, nothing excluded
    /// known solutions (some)
    pub sols: Vec<Grid>,
}

pub const NAMES: [&str; 14] = [
    "NakedSingles", "HiddenSingles", "LockedCandidates", "NakedPairs", "NakedTriples", "NakedQuads", "HiddenPairs",
    "HiddenTriples", "HiddenQuads", "XWing", "Swordfish", "Jellyfish", "XyWing", "XyzWing",
];

pub fn strategy(i: usize) -> Strategy {
    match i {
        0 => Strategy::NakedSingles,
        1 => Strategy::HiddenSingles,
        2 => Strategy::LockedCandidates,
        3 => Strategy::NakedPairs,
        4 => Strategy::NakedTriples,
        5 => Strategy::NakedQuads,
        6 => Strategy::HiddenPairs,
        7 => Strategy::HiddenTriples,
        8 => Strategy::HiddenQuads,
        9 => Strategy::XWing,
        10 => Strategy::Swordfish,
        11 => Strategy::Jellyfish,
        12 => Strategy::XyWing,
        13 => Strategy::XyzWing,
        14 => Strategy::MutantSwordfish,
        15 => Strategy::MutantJellyfish,
        _ => Strategy::AvoidableRectangles,
    }
}

pub fn mask_set(m: u16) -> Set<Digit> {
    Set::from_bits(m >> 1)
}

pub fn cell_states(p: &Posn) -> [CellState; 81] {
    let mut s = [CellState::Candidates(Set::NONE); 81];
    for c in 0..81 {
        s[c] = if p.g[c] != 0 { CellState::Digit(Digit::new(p.g[c])) } else { CellState::Candidates(mask_set(p.m[c])) };
    }
    s
}

pub fn make(p: &Posn, clues: bool) -> StrategySolver {
    if p.plain {
        if clues {
            StrategySolver::from_sudoku_and_clues(sud(&p.g), sud(&p.g))
        } else {
            StrategySolver::from_sudoku(sud(&p.g))
        }
    } else {
        StrategySolver::from_grid_state(cell_states(p))
    }
}

/// solutions within the masks
pub fn solve_in(p: &Posn, limit: usize) -> Vec<Grid> {
    let mut out = vec![];
    if has_conflict(&p.g) {
        return out;
    }
    let mut m = [0u16; 81];
    for c in 0..81 {
        m[c] = if p.g[c] != 0 { 1 << p.g[c] } else { p.m[c] & mask(&p.g, c) };
    }
    let mut nodes = 0;
    rec(&m, limit, &mut out, &mut nodes);
    out
}
fn rec(m: &[u16; 81], limit: usize, out: &mut Vec<Grid>, nodes: &mut usize) {
    *nodes += 1;
    if *nodes > 20000 {
        return;
    }
    let mut m = *m;
    // propagate
    let mut changed = true;
    while changed {
        changed = false;
        for c in 0..81 {
            if m[c] == 0 {
                return;
            }
            if m[c].count_ones() == 1 {
                for &q in &geo().peers[c] {
                    if m[q] & m[c] != 0 {
                        m[q] &= !m[c];
                        changed = true;
                        if m[q] == 0 {
                            return;
                        }
                    }
                }
            }
        }
        for h in &geo().houses {
            for d in 1..=9 {
                let mut n = 0;
                let mut at = 0;
                for &c in h {
                    if m[c] >> d & 1 == 1 {
                        n += 1;
                        at = c;
                    }
                }
                if n == 0 {
                    return;
                }
                if n == 1 && m[at].count_ones() > 1 {
                    m[at] = 1 << d;
                    changed = true;
                }
            }
        }
    }
    match (0..81).filter(|&c| m[c].count_ones() > 1).min_by_key(|&c| m[c].count_ones()) {
        None => {
            let mut g = [0; 81];
            for c in 0..81 {
                g[c] = m[c].trailing_zeros() as u8;
            }
            out.push(g);
        }
        Some(c) => {
            for d in 1..=9 {
                if m[c] >> d & 1 == 1 {
                    let mut k = m;
                    k[c] = 1 << d;
                    rec(&k, limit, out, nodes);
                    if out.len() >= limit {
                        return;
                    }
                }
            }
        }
    }
}

pub fn random_position(rng: &mut StdRng) -> Posn {
    let s = random_solved(rng);
    match rng.gen_range(0..12) {
        // nearly bivalue cells around a solution, for wings and chains of pairs
        10 | 11 => {
            let fill = *[0.0, 0.1, 0.3].choose(rng).unwrap();
            let mut p = Posn { g: [0; 81], m: [0x3fe; 81], plain: false, sols: vec![s] };
            for c in 0..81 {
                if rng.gen_bool(fill) {
                    p.g[c] = s[c];
                } else {
                    p.m[c] = 1 << s[c];
                    for _ in 0..*[1, 1, 1, 2, 2, 3].choose(rng).unwrap() {
                        p.m[c] |= 1 << rng.gen_range(1..10);
                    }
                }
            }
            p
        }
        0 => {
            let g = random_grid(rng);
            plain(&g)
        }
        1 | 2 => {
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(0..14);
            plain(&add_clues(&p, &s, n, rng))
        }
        3 => {
            let x = *HARD.iter().chain(MEDIUM).collect::<Vec<_>>().choose(rng).unwrap();
            plain(&shuffle_grid(&parse(x), rng))
        }
        // candidates around a solution
        4..=7 => {
            let fill = *[0.0, 0.1, 0.25, 0.4].choose(rng).unwrap();
            let dens = *[0.12, 0.2, 0.3, 0.45, 0.7].choose(rng).unwrap();
            let mut p = Posn { g: [0; 81], m: [0x3fe; 81], plain: false, sols: vec![s] };
            let mut by_digit = [dens; 10];
            if rng.gen_bool(0.4) {
                for d in 1..10 {
                    by_digit[d] = *[0.08, 0.2, 0.5, 0.9].choose(rng).unwrap();
                }
            }
            let two = rng.gen_bool(0.15);
            let s2 = shuffle_swap(&s, rng);
            for c in 0..81 {
                if rng.gen_bool(fill) && (!two || s[c] == s2[c]) {
                    p.g[c] = s[c];
                } else {
                    let mut m = 1u16 << s[c];
                    for d in 1..10 {
                        if rng.gen_bool(by_digit[d]) {
                            m |= 1 << d;
                        }
                    }
                    if two {
                        m |= 1 << s2[c];
                    }
                    p.m[c] = m;
                }
            }
            if two && s2 != s && full_valid(&s2) {
                p.sols.push(s2);
            }
            p
        }
        // a puzzle with some candidates excluded
        8 => {
            let q = minimal_puzzle(&s, rng);
            let n = rng.gen_range(0..14);
            let g = add_clues(&q, &s, n, rng);
            let mut p = Posn { g, m: [0x3fe; 81], plain: false, sols: vec![s] };
            for c in 0..81 {
                if rng.gen_bool(0.5) {
                    p.m[c] &= (rng.gen::<u16>() & 0x3fe) | 1 << s[c];
                }
            }
            p
        }
        // arbitrary, mostly without a solution
        _ => {
            let fill = *[0.0, 0.05, 0.2].choose(rng).unwrap();
            let mut p = Posn { g: [0; 81], m: [0x3fe; 81], plain: false, sols: vec![] };
            let dens = *[0.3, 0.6, 0.95].choose(rng).unwrap();
            for c in 0..81 {
                if rng.gen_bool(fill) {
                    p.g[c] = if rng.gen_bool(0.9) { s[c] } else { rng.gen_range(1..10) };
                } else {
                    let mut m = 0;
                    for d in 1..10 {
                        if rng.gen_bool(dens) {
                            m |= 1 << d;
                        }
                    }
                    if rng.gen_bool(0.97) {
                        m |= 1 << s[c];
                    }
                    p.m[c] = m;
                }
            }
            p
        }
    }
}

/// One instance of the pattern of strategy k around a solution, at a random place and orientation,
/// in surroundings that offer little else
pub fn crafted(k: usize, rng: &mut StdRng) -> Posn {
    let s = random_solved(rng);
    let house = house_cells();
    let mut m = [0x3feu16; 81];
    let bit = |d: u8| 1u16 << d;
    let mut pattern: Vec<usize> = vec![];
    let sub = |set: u16, must: u8, rng: &mut StdRng| (1..10).filter(|&d| d == must as usize || set >> d & 1 == 1 && rng.gen_bool(0.7)).fold(0u16, |a, d| a | 1 << d);
    match k {
        0 => {
            let c = rng.gen_range(0..81);
            m[c] = bit(s[c]);
            pattern.push(c);
        }
        1 | 6..=8 => {
            let n = if k == 1 { 1 } else { k - 4 };
            let mut h = house[rng.gen_range(0..27)];
            h.shuffle(rng);
            let ds = h[..n].iter().fold(0u16, |a, &c| a | bit(s[c]));
            h[n..].iter().for_each(|&c| m[c] &= !ds);
            // the digits of a hidden subset need not have all places
            h[..n].iter().for_each(|&c| m[c] = (m[c] & !ds) | sub(ds, s[c], rng));
            pattern.extend(h);
        }
        3..=5 => {
            let n = k - 1;
            let mut h = house[rng.gen_range(0..27)];
            h.shuffle(rng);
            let ds = h[..n].iter().fold(0u16, |a, &c| a | bit(s[c]));
            h[..n].iter().for_each(|&c| m[c] = sub(ds, s[c], rng));
            pattern.extend(&h[..n]);
        }
        2 => {
            let b = rng.gen_range(18..27);
            let c = house[b][rng.gen_range(0..9)];
            let l = if rng.gen() { c / 9 } else { 9 + c % 9 };
            let (from, other) = if rng.gen() { (b, l) } else { (l, b) };
            let d = s[c];
            house[from].iter().filter(|c| !house[other].contains(c)).for_each(|&c| m[c] &= !bit(d));
            pattern.extend(house[from]);
        }
        9..=11 => {
            let n = k - 7;
            let d = rng.gen_range(1..10u8);
            let by_col = rng.gen();
            let mut lines: Vec<usize> = (0..9).collect();
            lines.shuffle(rng);
            let base = &lines[..n];
            let at = |l: usize, i: usize| if by_col { i * 9 + l } else { l * 9 + i };
            let cover: Vec<usize> = base.iter().map(|&l| (0..9).find(|&i| s[at(l, i)] == d).unwrap()).collect();
            for &l in base {
                for i in 0..9 {
                    pattern.push(at(l, i));
                    if !cover.contains(&i) || s[at(l, i)] != d && rng.gen_bool(0.25) {
                        m[at(l, i)] &= !bit(d);
                    }
                }
            }
        }
        12 | 13 => loop {
            let h = rng.gen_range(0..81);
            let ps = geo().peers[h];
            let (p, q) = (*ps.choose(rng).unwrap(), *ps.choose(rng).unwrap());
            let mut ds: Vec<u8> = (1..10).collect();
            ds.shuffle(rng);
            let (x, y, z) = (bit(ds[0]), bit(ds[1]), bit(ds[2]));
            let (mh, mp, mq) = (x | y | if k == 13 { z } else { 0 }, x | z, y | z);
            if p != q && mh & bit(s[h]) != 0 && mp & bit(s[p]) != 0 && mq & bit(s[q]) != 0 {
                (m[h], m[p], m[q]) = (mh, mp, mq);
                pattern.extend([h, p, q]);
                break;
            }
        },
        // closed loops of strong links and other places of one digit in few houses
        _ => {
            let d = rng.gen_range(1..10u8);
            let of: Vec<usize> = (0..81).filter(|&c| s[c] == d).collect();
            let n = if rng.gen() { 2 } else { 3 };
            let cs: Vec<usize> = of.choose_multiple(rng, n).cloned().collect();
            let keep: Vec<usize> = (0..81).filter(|c| cs.iter().any(|x| x / 9 == c / 9) && cs.iter().any(|x| x % 9 == c % 9)).collect();
            for c in 0..81 {
                if cs.iter().any(|x| x / 9 == c / 9 || x % 9 == c % 9 || rng.gen_bool(0.05)) && !keep.contains(&c) && s[c] != d {
                    m[c] &= !bit(d);
                    pattern.push(c);
                }
            }
            pattern.extend(keep);
        }
    }
    let (fill, thin) = *[(0.0, 0.0), (0.0, 0.0), (0.0, 0.1), (0.0, 0.3), (0.15, 0.0), (0.3, 0.2)].choose(rng).unwrap();
    let mut g = [0; 81];
    for c in 0..81 {
        if !pattern.contains(&c) {
            if rng.gen_bool(fill) {
                g[c] = s[c];
            }
            for d in 1..10u8 {
                if s[c] != d && rng.gen_bool(thin) {
                    m[c] &= !bit(d);
                }
            }
        }
        debug_assert!(m[c] >> s[c] & 1 == 1);
    }
    Posn { g, m, plain: false, sols: vec![s] }
}

/// a strategy and a position made for it, and strategies to try on it
pub fn crafted_with_list(rng: &mut StdRng) -> (Posn, Vec<usize>) {
    let k = rng.gen_range(0..16);
    let p = crafted(k, rng);
    let mut list = match rng.gen_range(0..6) {
        0 | 1 => vec![k],
        2 => vec![0, k],
        3 => vec![rng.gen_range(0..16), k, rng.gen_range(0..16)],
        4 => vec![k, 1, 0],
        _ => random_list(rng, true),
    };
    if k >= 14 {
        list.push(rng.gen_range(14..16));
    }
    (p, list)
}

/// two digits of one solution exchanged in one band, if that stays valid
fn shuffle_swap(s: &Grid, rng: &mut StdRng) -> Grid {
    for _ in 0..20 {
        let (a, b) = (rng.gen_range(1..10), rng.gen_range(1..10));
        if a == b {
            continue;
        }
        // follow the chain of forced exchanges
        let mut t = *s;
        let c0 = (0..81).filter(|&c| s[c] == a).collect::<Vec<_>>()[rng.gen_range(0..9)];
        let mut todo = vec![c0];
        let mut n = 0;
        while let Some(c) = todo.pop() {
            if t[c] != s[c] {
                continue;
            }
            t[c] = if s[c] == a { b } else { a };
            n += 1;
            for &q in &geo().peers[c] {
                if s[q] == t[c] && t[q] == s[q] {
                    todo.push(q);
                }
            }
        }
        if n < 18 && full_valid(&t) {
            return t;
        }
    }
    *s
}

pub fn plain(g: &Grid) -> Posn {
    Posn { g: *g, m: [0x3fe; 81], plain: true, sols: vec![] }
}

pub fn random_list(rng: &mut StdRng, mutants: bool) -> Vec<usize> {
    let mut v: Vec<usize> = match rng.gen_range(0..8) {
        0 => vec![rng.gen_range(0..14)],
        1 => vec![rng.gen_range(9..14)],
        2 | 3 => {
            let mut v: Vec<usize> = (0..14).collect();
            v.shuffle(rng);
            v.truncate(rng.gen_range(2..5));
            v
        }
        4 => vec![0, 1, 2, 3, 9, 6, 4, 10, 7, 12, 13, 5, 11, 8],
        5 => {
            let mut v: Vec<usize> = (0..14).collect();
            v.shuffle(rng);
            v
        }
        6 => {
            // a hard strategy before the easy ones
            vec![rng.gen_range(2..14), rng.gen_range(2..14), 1, 0]
        }
        _ => {
            let mut v: Vec<usize> = (0..rng.gen_range(0..6)).map(|_| rng.gen_range(0..14)).collect();
            if mutants && rng.gen_bool(0.3) {
                v.push(14);
            }
            v
        }
    };
    if rng.gen_bool(0.05) {
        let x = rng.gen_range(0..14);
        v.push(x);
    }
    v
}

fn conf(c: &[Candidate]) -> Value {
    Value::Array(c.iter().map(|x| json!([x.cell.get() + 1, x.digit.get()])).collect())
}
pub fn house_ix(h: House) -> usize {
    match h.categorize() {
        HouseType::Row(r) => r.get() as usize,
        HouseType::Col(r) => 9 + r.get() as usize,
        HouseType::Block(r) => 18 + r.get() as usize,
    }
}
fn line_ix(h: Line) -> usize {
    match h.categorize() {
        LineType::Row(r) => r.get() as usize,
        LineType::Col(r) => 9 + r.get() as usize,
    }
}
pub fn digits(s: Set<Digit>) -> Vec<u8> {
    s.into_iter().map(|d| d.get()).collect()
}

pub fn ded_json(d: &Deduction<&[Candidate]>) -> Value {
    let s = format!("{:?}", d.strategy());
    match d {
        Deduction::NakedSingles(c) => json!(["NS", s, c.cell.get() + 1, c.digit.get()]),
        Deduction::HiddenSingles(c, h) => json!([
            "HS", s, c.cell.get() + 1, c.digit.get(),
            match h { HouseType::Row(_) => 0, HouseType::Col(_) => 1, HouseType::Block(_) => 2 },
            match h { HouseType::Row(r) => r.get(), HouseType::Col(r) => 9 + r.get(), HouseType::Block(r) => 18 + r.get() }
        ]),
        Deduction::LockedCandidates { digit, miniline, is_pointing, conflicts } => json!([
            "LC", s, digit.get(), miniline.cells().into_iter().map(|c| c.get() + 1).collect::<Vec<_>>(), is_pointing, conf(conflicts)
        ]),
        Deduction::Subsets { house, positions, digits: ds, conflicts } => json!([
            "SS", s, house_ix(*house), positions.into_iter().map(|p| p.get()).collect::<Vec<_>>(), digits(*ds), conf(conflicts)
        ]),
        Deduction::BasicFish { digit, lines, positions, conflicts } => json!([
            "BF", s, lines.into_iter().map(line_ix).collect::<Vec<_>>(), digit.get(),
            positions.into_iter().map(|p| p.get()).collect::<Vec<_>>(), conf(conflicts)
        ]),
        Deduction::Fish { digit, base, cover, conflicts } => json!([
            "FI", s, digit.get(), base.into_iter().map(house_ix).collect::<Vec<_>>(), cover.into_iter().map(house_ix).collect::<Vec<_>>(), conf(conflicts)
        ]),
        Deduction::Wing { hinge, hinge_digits, pincers, conflicts } => json!([
            "WG", s, hinge.get() + 1, digits(*hinge_digits), pincers.into_iter().map(|c| c.get() + 1).collect::<Vec<_>>(), conf(conflicts)
        ]),
        _ => json!(["??", s, 0, 0, 0, []]),
    }
}

/// the three ways to read the history agree
fn consistent(d: &Deductions) -> bool {
    let v: Vec<_> = d.iter().collect();
    v.len() == d.len()
        && d.is_empty() == v.is_empty()
        && (0..v.len()).all(|i| d.get(i).as_ref() == Some(&v[i]))
        && d.get(v.len()).is_none()
        && d.get(usize::MAX).is_none()
}

pub struct Run {
    pub ok: bool,
    pub out: Grid,
    pub ded: Vec<Value>,
    pub cons: bool,
}

pub fn names(list: &[usize]) -> Vec<String> {
    list.iter().map(|&i| format!("{:?}", strategy(i))).collect()
}

pub fn pos_json(p: &Posn) -> (Value, Value) {
    let el: Vec<Vec<u8>> = (0..81).map(|c| if p.g[c] != 0 { vec![] } else { (1..10u8).filter(|d| p.m[c] >> d & 1 == 0).collect() }).collect();
    (gv(&p.g), json!(el))
}

pub fn result(r: Result<(sudoku::Sudoku, Deductions), (sudoku::Sudoku, Deductions)>) -> Run {
    let ok = r.is_ok();
    let (s, d) = match r {
        Ok(x) => x,
        Err(x) => x,
    };
    Run { ok, out: s.to_bytes(), ded: d.iter().map(|x| ded_json(&x)).collect(), cons: consistent(&d) }
}

pub fn run_solver(ctx: &mut Ctx, p: &Posn, list: &[usize], clues: bool) -> Option<Run> {
    let st: Vec<Strategy> = list.iter().map(|&i| strategy(i)).collect();
    let inp = || json!({"pos": pos_json(p), "strategies": names(list)});
    ctx.call("StrategySolver::solve", &inp, || result(make(p, clues).solve(&st)))
}

pub fn event(kind: &str, p: &Posn, list: &[usize], r: &Run) -> Value {
    let (g, el) = pos_json(p);
    json!({"k": kind, "g": g, "el": el, "strats": names(list), "ok": r.ok, "out": gv(&r.out), "ded": r.ded, "cons": r.cons,
        "sols": p.sols.iter().map(gv).collect::<Vec<_>>()})
}

/// quick comparison with the solutions: true = disagreement
fn wrong(p: &Posn, r: &Run) -> bool {
    if r.ok && !full_valid(&r.out) {
        return true;
    }
    for s in &p.sols {
        for d in &r.ded {
            let a = d.as_array().unwrap();
            let k = a[0].as_str().unwrap();
            if k == "NS" || k == "HS" {
                if s[a[2].as_u64().unwrap() as usize - 1] as u64 != a[3].as_u64().unwrap() {
                    return true;
                }
            } else {
                for x in a[5].as_array().unwrap() {
                    if s[x[0].as_u64().unwrap() as usize - 1] as u64 == x[1].as_u64().unwrap() {
                        return true;
                    }
                }
            }
        }
    }
    false
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(16);
    let kind = match prop {
        "P16" => "sound",
        "P17" => "why",
        _ => "end",
    };
    let mut ps: Vec<Posn> = vec![];
    let mut i = 0;
    for g in special_grids(&mut ctx.rng(1)) {
        i += 1;
        if ctx.mine(i) {
            ps.push(plain(&g));
        }
    }
    let n = match (prop, ctx.thorough) {
        ("P16", false) => 6000,
        ("P17", false) => 9000,
        (_, false) => 6000,
        (_, true) => 60000,
    };
    for _ in 0..ctx.part(n) {
        ps.push(random_position(&mut rng));
    }
    let mut ps: Vec<(Posn, Vec<usize>)> = ps.into_iter().map(|p| (p, random_list(&mut rng, true))).collect();
    for _ in 0..ctx.part(n / 2) {
        ps.push(crafted_with_list(&mut rng));
    }
    let mut canaries = 0;
    for (p, list) in &mut ps {
        fill_solutions(p);
        let (p, list) = (&*p, &*list);
        if let Some(r) = run_solver(ctx, p, &list, rng.gen_bool(0.2)) {
            let e = event(kind, p, &list, &r);
            stats(ctx, p, &r, &list);
            if canaries < 6 && !r.ded.is_empty() {
                if let Some(c) = corrupt(kind, p, &e, &mut rng) {
                    canaries += 1;
                    ctx.canary(c);
                }
            }
            ctx.emit(e);
        }
    }
    if prop == "P16" {
        let budget = if ctx.thorough { 900.0 } else { 12.0 };
        let t0 = ctx.elapsed();
        while ctx.elapsed() - t0 < budget && ctx.suspicious < 20 {
            let (mut p, list) = match rng.gen_bool(0.4) {
                true => crafted_with_list(&mut rng),
                false => (random_position(&mut rng), random_list(&mut rng, true)),
            };
            fill_solutions(&mut p);
            if let Some(r) = run_solver(ctx, &p, &list, false) {
                ctx.prefiltered += 1;
                if wrong(&p, &r) {
                    ctx.suspicious += 1;
                    ctx.emit(event(kind, &p, &list, &r));
                }
            }
        }
    }
}

pub fn fill_solutions(p: &mut Posn) {
    for s in solve_in(p, 4) {
        if !p.sols.contains(&s) {
            p.sols.push(s);
        }
    }
    p.sols.truncate(5);
    // a digit conflicting with its peers may remain as clue: no solution then
    let (g, m) = (p.g, p.m);
    p.sols.retain(|s| (0..81).all(|c| if g[c] != 0 { g[c] == s[c] } else { m[c] >> s[c] & 1 == 1 }));
}

fn stats(ctx: &mut Ctx, p: &Posn, r: &Run, list: &[usize]) {
    for d in &r.ded {
        let a = d.as_array().unwrap();
        let first = names(list).first().map(|x| *x == a[1]).unwrap_or(false);
        ctx.stat(&format!("deductions {}{}", a[1].as_str().unwrap(), if first { " (first)" } else { "" }), 1);
    }
    ctx.stat(if r.ok { "solved" } else { "not solved" }, 1);
    ctx.stat(if p.sols.is_empty() { "positions without a solution" } else if p.sols.len() == 1 { "positions with one known solution" } else { "positions with several solutions" }, 1);
}

fn corrupt(kind: &str, p: &Posn, e: &Value, rng: &mut StdRng) -> Option<Value> {
    let mut e = e.clone();
    match kind {
        "why" => {
            let ded = e["ded"].as_array_mut().unwrap();
            let ix: Vec<usize> = (0..ded.len()).filter(|&i| ded[i].as_array().unwrap().len() == 6 && ded[i][0] != "HS").collect();
            let &i = ix.choose(rng)?;
            // a candidate of a solution, which no pattern can exclude
            let s = p.sols.first()?;
            let c = rng.gen_range(0..81);
            ded[i][5].as_array_mut().unwrap().push(json!([c + 1, s[c]]));
            Some(e)
        }
        "sound" => {
            let s = p.sols.first()?;
            let ded = e["ded"].as_array_mut().unwrap();
            let i = rng.gen_range(0..ded.len());
            if ded[i][0] == "NS" || ded[i][0] == "HS" {
                ded[i][3] = json!(ded[i][3].as_u64().unwrap() % 9 + 1);
            } else {
                let c = rng.gen_range(0..81);
                ded[i][5].as_array_mut().unwrap().push(json!([c + 1, s[c]]));
            }
            Some(e)
        }
        _ => {
            if rng.gen() {
                e["ok"] = json!(!e["ok"].as_bool().unwrap());
            } else {
                let c = rng.gen_range(0..81);
                e["out"][c] = json!((e["out"][c].as_u64().unwrap() + 1) % 10);
            }
            Some(e)
        }
    }
}
