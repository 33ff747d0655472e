//! Reference geometry, solver with certificates, random grids. Independent of the crate under test.
#![allow(dead_code)]
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};

pub type Grid = [u8; 81];

pub fn house_cells() -> [[usize; 9]; 27] {
    let mut h = [[0; 9]; 27];
    for c in 0..81 {
        let (r, k) = (c / 9, c % 9);
        let b = r / 3 * 3 + k / 3;
        h[r][k] = c;
        h[9 + k][r] = c;
        h[18 + b][(r % 3) * 3 + k % 3] = c;
    }
    h
}

pub struct Geo {
    pub houses: [[usize; 9]; 27],
    pub peers: [[usize; 20]; 81],
    pub of: [[usize; 3]; 81],
}

pub fn geo() -> &'static Geo {
    static G: std::sync::OnceLock<Geo> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        let houses = house_cells();
        let mut peers = [[0; 20]; 81];
        let mut of = [[0; 3]; 81];
        for c in 0..81 {
            let mut p = vec![];
            let mut k = 0;
            for (hi, h) in houses.iter().enumerate() {
                if h.contains(&c) {
                    of[c][k] = hi;
                    k += 1;
                    for &x in h {
                        if x != c && !p.contains(&x) {
                            p.push(x);
                        }
                    }
                }
            }
            p.sort();
            peers[c].copy_from_slice(&p);
        }
        Geo { houses, peers, of }
    })
}

pub fn full_valid(g: &Grid) -> bool {
    geo().houses.iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            if g[c] == 0 || g[c] > 9 {
                return false;
            }
            m |= 1 << g[c];
        }
        m == 0x3fe
    })
}

pub fn has_conflict(g: &Grid) -> bool {
    let geo = geo();
    (0..81).any(|c| g[c] != 0 && geo.peers[c].iter().any(|&p| g[p] == g[c]))
}

pub fn mask(g: &Grid, c: usize) -> u16 {
    // candidates of empty cell c
    let mut m = 0x3fe;
    for &p in &geo().peers[c] {
        m &= !(1u16 << g[p]);
    }
    m & 0x3fe
}

enum Branch {
    Cell(usize, u16),
    House(usize, u8, Vec<usize>),
    Done,
}

fn choose(g: &Grid) -> Branch {
    let geo = geo();
    let mut ms = [0u16; 81];
    let mut best = 10;
    let mut bc = 99;
    for c in 0..81 {
        if g[c] == 0 {
            ms[c] = mask(g, c);
            let n = ms[c].count_ones();
            if n < best {
                best = n;
                bc = c;
                if n == 0 {
                    return Branch::Cell(c, 0);
                }
            }
        }
    }
    if bc == 99 {
        return Branch::Done;
    }
    if best > 1 {
        for (hi, h) in geo.houses.iter().enumerate() {
            let mut present = 0u16;
            for &c in h {
                present |= 1 << g[c];
            }
            for d in 1..=9u8 {
                if present >> d & 1 == 0 {
                    let n = h.iter().filter(|&&c| ms[c] >> d & 1 == 1).count();
                    if n < 2 {
                        let cs = h.iter().cloned().filter(|&c| ms[c] >> d & 1 == 1).collect();
                        return Branch::House(hi, d, cs);
                    }
                }
            }
        }
    }
    Branch::Cell(bc, ms[bc])
}

/// Solutions up to limit
pub fn solve(g: &Grid, limit: usize) -> Vec<Grid> {
    let mut out = vec![];
    if limit > 0 && !has_conflict(g) {
        let mut g = *g;
        rec(&mut g, limit, &mut out, &mut None::<&mut StdRng>);
    }
    out
}

fn rec(g: &mut Grid, limit: usize, out: &mut Vec<Grid>, rng: &mut Option<&mut StdRng>) {
    match choose(g) {
        Branch::Done => out.push(*g),
        Branch::Cell(c, m) => {
            let mut ds: Vec<u8> = (1..=9).filter(|d| m >> d & 1 == 1).collect();
            if let Some(r) = rng {
                ds.shuffle(*r);
            }
            for d in ds {
                g[c] = d;
                rec(g, limit, out, rng);
                g[c] = 0;
                if out.len() >= limit {
                    return;
                }
            }
        }
        Branch::House(_, d, cs) => {
            for c in cs {
                g[c] = d;
                rec(g, limit, out, rng);
                g[c] = 0;
                if out.len() >= limit {
                    return;
                }
            }
        }
    }
}

/// Random solution of g, if any
pub fn random_solution(g: &Grid, rng: &mut StdRng) -> Option<Grid> {
    if has_conflict(g) {
        return None;
    }
    let mut out = vec![];
    let mut gg = *g;
    rec(&mut gg, 1, &mut out, &mut Some(rng));
    out.pop()
}

pub fn random_solved(rng: &mut StdRng) -> Grid {
    // random first row and random diagonal block entries, then random completion
    let mut g = [0u8; 81];
    let mut ds: Vec<u8> = (1..=9).collect();
    ds.shuffle(rng);
    for i in 0..9 {
        g[i] = ds[i];
    }
    random_solution(&g, rng).unwrap()
}

/// Complete search tree: a run of the specification's search machine.
pub fn certificate(g: &Grid) -> Value {
    if has_conflict(g) {
        return json!([3]);
    }
    let mut g = *g;
    cert(&mut g)
}

fn cert(g: &mut Grid) -> Value {
    match choose(g) {
        Branch::Done => json!([2]),
        Branch::Cell(c, m) => {
            let mut kids = vec![];
            for d in 1..=9u8 {
                if m >> d & 1 == 1 {
                    g[c] = d;
                    kids.push(json!([d, cert(g)]));
                    g[c] = 0;
                }
            }
            json!([0, c + 1, 0, kids])
        }
        Branch::House(h, d, cs) => {
            let mut kids = vec![];
            for c in cs {
                g[c] = d;
                kids.push(json!([c + 1, cert(g)]));
                g[c] = 0;
            }
            json!([1, h, d, kids])
        }
    }
}

pub fn n_clues(g: &Grid) -> usize {
    g.iter().filter(|&&x| x != 0).count()
}

/// minimal unique puzzle (no symmetry) from a solved grid
pub fn minimal_puzzle(sol: &Grid, rng: &mut StdRng) -> Grid {
    let mut order: Vec<usize> = (0..81).collect();
    order.shuffle(rng);
    let mut g = *sol;
    for c in order {
        let d = g[c];
        g[c] = 0;
        if solve(&g, 2).len() != 1 {
            g[c] = d;
        }
    }
    g
}

pub fn add_clues(g: &Grid, sol: &Grid, n: usize, rng: &mut StdRng) -> Grid {
    let mut e: Vec<usize> = (0..81).filter(|&c| g[c] == 0).collect();
    e.shuffle(rng);
    let mut r = *g;
    for c in e.into_iter().take(n) {
        r[c] = sol[c];
    }
    r
}

pub fn remove_clues(g: &Grid, n: usize, rng: &mut StdRng) -> Grid {
    let mut e: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
    e.shuffle(rng);
    let mut r = *g;
    for c in e.into_iter().take(n) {
        r[c] = 0;
    }
    r
}

/// Random member of the equivalence class
pub fn shuffle_grid(g: &Grid, rng: &mut StdRng) -> Grid {
    let mut lab: Vec<u8> = (1..=9).collect();
    lab.shuffle(rng);
    let line = |rng: &mut StdRng| {
        let mut chutes = [0usize, 1, 2];
        chutes.shuffle(rng);
        let mut v = vec![];
        for c in chutes {
            let mut l = [0usize, 1, 2];
            l.shuffle(rng);
            for x in l {
                v.push(c * 3 + x);
            }
        }
        v
    };
    let rows = line(rng);
    let cols = line(rng);
    let tr: bool = rng.gen();
    let mut o = [0u8; 81];
    for r in 0..9 {
        for c in 0..9 {
            let (sr, sc) = (rows[r], cols[c]);
            let v = if tr { g[sc * 9 + sr] } else { g[sr * 9 + sc] };
            o[r * 9 + c] = if v == 0 { 0 } else { lab[v as usize - 1] };
        }
    }
    o
}

pub fn parse(s: &str) -> Grid {
    let mut g = [0; 81];
    for (i, b) in s.bytes().take(81).enumerate() {
        g[i] = if b.is_ascii_digit() { b - b'0' } else { 0 };
    }
    g
}

pub fn line(g: &Grid) -> String {
    g.iter().map(|&d| if d == 0 { '.' } else if d < 10 { (b'0' + d) as char } else { '?' }).collect()
}

pub fn gv(g: &Grid) -> Value {
    Value::Array(g.iter().map(|&x| json!(x)).collect())
}

pub const HARD: &[&str] = &[
    "..............3.85..1.2.......5.7.....4...1...9.......5......73..2.1........4...9",
    ".......12........3..23..4....18....5.6..7.8.......9.....85.....9...4.5..47...6...",
    ".2..5.7..4..1....68....3...2....8..3.4..2.5.....6...1...2.9.....9......57.4...9..",
    "........3..1..56...9..4..7......9.5.7.......8.5.4.2....8..2..9...35..1..6........",
    "12.3....435....1....4........54..2..6...7.........8.9...31..5.......9.7.....6...8",
    "1.......2.9.4...5...6...7...5.9.3.......7.......85..4.7.....6...3...9.8...2.....1",
    ".......39.....1..5..3.5.8....8.9...6.7...2...1..4.......9.8..5..2....6..4..7.....",
    "12.3.....4.....3....3.5......42..5......8...9.6...5.7...15..2......9..6......7..8",
    "..3..6.8....1..2......7...4..9..8.6..3..4...1.7.2.....3....5.....5...6..98.....5.",
    "1.......9..67...2..8....4......75.3...5..2....6.3......9....8..6...4...1..25...6.",
    "..9...4...7.3...2.8...6...71..8....6....1..7.....56...3....5..1.4.....9...2...7..",
    "....9..5..1.....3...23..7....45...7.8.....2.......64...9..1.....8..6......54....7",
    "4...3.......6..8..........1....5..9..8....6...7.2........1.27..5.3....4.9........",
    "7.8...3.....2.1...5.........4.....263...8.......1...9..9.6....4....7.5...........",
    "3.7.4...........918........4.....7.....16.......25..........38..9....5...2.6.....",
    "........8..3...4...9..2..6.....79.......612...6.5.2.7...8...5...1.....2.4.5.....3",
    ".......1.4.........2...........5.4.7..8...3....1.9....3..4..2...5.1........8.6...",
    ".......12....35......6...7.7.....3.....4..8..1...........12.....8.....4..5....6..",
    "1.......2.9.4...5...6...7...5.3.4.......6........58.4...2...6...3...9.8.7.......1",
    ".....1.2.3...4.5.....6....7..2.....1.8..9..3.4.....8..5....2....9..3.4....67.....",
    "4.....8.5.3..........7......2.....6.....8.4......1.......6.3.7.5..2.....1.4......",
    "52...6.........7.13...........4..8..6......5...........418.........3..2...87.....",
    "6.....8.3.4.7.................5.4.7.3..2.....1.6.......2.....5.....8.6......1....",
    "48.3............71.2.......7.5....6....2..8.............1.76...3.....4......5....",
    "....14....3....2...7..........9...3.6.1.............8.2.....1.4....5.6.....7.8...",
    "......52..8.4......3...9...5.1...6..2..7........3.....6...1..........7.4.......3.",
    "85...24..72......9..4.........1.7..23.5...9...4...........8..7..17..........36.4.",
    "..53.....8......2..7..1.5..4....53...1..7...6..32...8..6.5....9..4....3......97..",
    "12..4......5.69.1...9...5.........7.7...52.9..3......2.9.6...5.4..9..8.1..3...9.4",
    "1....7.9..3..2...8..96..5....53..9...1..8...26....4...3......1..4......7..7...3..",
    "8..........36......7..9.2...5...7.......457.....1...3...1....68..85...1..9....4..",
    "..............3.85..1.2.......5.7.....4...1...9.......5......73..2.1........4...9",
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "1.......2.9.4...5...6...7...5.9.3.......7.......85..4.7.....6...3...9.8...2.....1",
    "98.7.....6.....87...7.....5.4..3.5....65...9......2..1..86...5.....1.3.......4..2",
];
pub const MEDIUM: &[&str] = &[
    ".......1.4.........2...........5.4.7..8...3....1.9....3..4..2...5.1........8.6...",
    ".......1.4.........2...........5.6.4..8...3....1.9....3..4..2...5.1........8.7...",
    ".......12....35......6...7.7.....3.....4..8..1...........12.....8.....4..5....6..",
    ".......12..36..........7...41..2.......5..3..7.....6..28.....4....3..5...........",
    ".......12..8.3...........4.12.5..........47...6.......5.7...3.....62.......1.....",
    ".......12.4..5.........9....7.6..4.....1............5.....875..6.1...3..2........",
    ".......12.5.4............3.7..6..4....1..........8....92....8.....51.7.......3...",
    ".......123......6.....4....9.....5.......1.7..2..........35.4....14..8...6.......",
    ".......124...9...........5..7.2.....6.....4.....1.8....18..........3.7..5.2......",
    ".......125....8......7.....6..12....7.....45.....3.....3....8.....5..7...2.......",
    "...1...382....5.............5....4..4...3.......7....6..1....5.....6.2...6...4...",
    "..3.2.6..9..3.5..1..18.64....81.29..7.......8..67.82....26.95..8..2.3..9..5.1.3..",
    "2...8.3...6..7..84.3.5..2.9...1.54.8.........4.27.6...3.1..7.4.72..4..6...4.1...3",
    "......9.7...42.18....7.5.261..9.4....5.....4....5.7..992.1.8....34.59...5.7......",
    ".3..5..4...8.1.5..46.....12.7.5.2.8....6.3....4.1.9.3.25.....98..1.2.6...8..6..2.",
    ".2.81.74.7....31...9...28.5..9.4..874..2.8..316..3.2..3.27...6...56....8.76.51.9.",
    "1..92....524.1...........7..5...81.2.........4.27...9..6...........3.945....71..6",
    ".43.8.25.6.............1.949....4.7....6.8....1.2....382.5.............5.34.9.71.",
    "48...69.2..2..8..19..37..6.84..1.2....37.41....1.6..49.2..85..77..9..6..6.92...18",
    "...9....2.5.1234...3....16.9.8.......7.....9.......2.5.91....5...7439.2.4....7...",
    "..19....39..7..16..3...5..7.5......9..43.26..2......7.6..1...3..42..7..65....68..",
];
pub const INVALID: &[&str] = &[
    "..9.7...5..21..9..1...28....7...5..1..851.....5....3.......3..68........21.....87",
    "6.159.....9..1............4.7.314..6.24.....5..3....1...6.....3...9.2.4......16..",
    ".4.1..35.............2.5......4.89..26.....12.5.3....7..4...16.6....7....1..8..2.",
    "..9.287..8.6..4..5..3.....46.........2.71345.........23.....5..9..4..8.7..125.3..",
    ".9.3....1....8..46......8..4.5.6..3...32756...6..1.9.4..1......58..2....2....7.6.",
    "....41....6.....2...2......32.6.........5..417.......2......23..48......5.1..2...",
    "9..1....4.14.3.8....3....9....7.8..18....3..........3..21....7...9.4.5..5...16..3",
];
