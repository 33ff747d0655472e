//! Grids of all kinds for the checks of solver and generator.
use crate::refs::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;

/// Smallest interesting family members, always included.
pub fn special_grids(rng: &mut StdRng) -> Vec<Grid> {
    let mut v = vec![[0u8; 81]];
    // single clue, each band
    for _ in 0..3 {
        let mut g = [0u8; 81];
        g[rng.gen_range(0..81)] = rng.gen_range(1..=9);
        v.push(g);
    }
    let s = random_solved(rng);
    v.push(s);
    // solved with one wrong digit, two swapped digits
    let mut g = s;
    let c = rng.gen_range(0..81);
    g[c] = g[c] % 9 + 1;
    v.push(g);
    let mut g = s;
    let c = rng.gen_range(0..80);
    g.swap(c, c + 1);
    v.push(g);
    // latin square that violates blocks
    let mut g = [0u8; 81];
    for r in 0..9 {
        for c in 0..9 {
            g[r * 9 + c] = ((r + c) % 9 + 1) as u8;
        }
    }
    v.push(g);
    // all the same digit
    v.push([5; 81]);
    // duplicates within one house only
    for h in [0usize, 4, 9, 13, 18, 22, 26] {
        let cells = geo().houses[h];
        let mut g = [0u8; 81];
        g[cells[0]] = 7;
        g[cells[8]] = 7;
        v.push(g);
    }
    // duplicate digit in one house of a puzzle
    for x in INVALID {
        v.push(parse(x));
    }
    // all 9 digits in the peers of a cell: empty cell without candidates
    let mut g = [0u8; 81];
    for i in 1..9 {
        g[i] = i as u8;
    }
    g[9 * 4] = 9;
    v.push(g);
    // digit without a place in row 0
    let mut g = [0u8; 81];
    g[9 + 1] = 1;
    g[18 + 4] = 1;
    g[6] = 2;
    g[7] = 3;
    g[8] = 4;
    v.push(g);
    for x in HARD.iter().chain(MEDIUM) {
        v.push(parse(x));
    }
    v
}

/// one random grid of a random kind
pub fn random_grid(rng: &mut StdRng) -> Grid {
    let s = random_solved(rng);
    match rng.gen_range(0..14) {
        0 => s,
        1 => minimal_puzzle(&s, rng),
        2 => {
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(1..12);
            add_clues(&p, &s, n, rng)
        }
        3 | 4 => {
            // few solutions
            let p = minimal_puzzle(&s, rng);
            let n = rng.gen_range(1..4);
            let q = remove_clues(&p, n, rng);
            let k = rng.gen_range(0..20);
            add_clues(&q, &s, k, rng)
        }
        5 => {
            // few missing clues of a solved grid, whole houses or two digits removed
            let mut g = s;
            match rng.gen_range(0..3) {
                0 => {
                    let (a, b) = (rng.gen_range(1..=9), rng.gen_range(1..=9));
                    for x in g.iter_mut() {
                        if *x == a || *x == b {
                            *x = 0
                        }
                    }
                }
                1 => {
                    for _ in 0..rng.gen_range(1..4) {
                        for &c in &geo().houses[rng.gen_range(0..27)] {
                            g[c] = 0
                        }
                    }
                }
                _ => g = remove_clues(&s, rng.gen_range(1..50), rng),
            }
            g
        }
        6 => remove_clues(&s, rng.gen_range(40..82), rng),
        7 => {
            // a wrong digit (locally possible) in a puzzle
            let p0 = minimal_puzzle(&s, rng);
            let k = rng.gen_range(0..6);
            let mut p = add_clues(&p0, &s, k, rng);
            let e: Vec<usize> = (0..81).filter(|&c| p[c] == 0 && mask(&p, c).count_ones() > 1).collect();
            if let Some(&c) = e.choose(rng) {
                let ds: Vec<u8> = (1..=9).filter(|&d| mask(&p, c) >> d & 1 == 1 && d != s[c]).collect();
                if let Some(&d) = ds.choose(rng) {
                    p[c] = d;
                }
            }
            p
        }
        8 => {
            // duplicate clue
            let mut g = remove_clues(&s, rng.gen_range(1..70), rng);
            let f: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
            if let Some(&c) = f.choose(rng) {
                let p = *geo().peers[c].choose(rng).unwrap();
                g[p] = g[c];
            }
            g
        }
        9 => {
            // random noise
            let mut g = [0u8; 81];
            let k = rng.gen_range(1..30);
            for _ in 0..k {
                let c = rng.gen_range(0..81);
                let m = mask(&g, c);
                let ds: Vec<u8> = (1..=9).filter(|&d| m >> d & 1 == 1).collect();
                if g[c] == 0 {
                    if let Some(&d) = ds.choose(rng) {
                        g[c] = d;
                    }
                }
            }
            g
        }
        10 => shuffle_grid(&parse(HARD.choose(rng).unwrap()), rng),
        11 => {
            // hard puzzle with a clue more or less
            let p = shuffle_grid(&parse(HARD.choose(rng).unwrap()), rng);
            if rng.gen() {
                remove_clues(&p, rng.gen_range(1..3), rng)
            } else {
                let sol = solve(&p, 1);
                match sol.first() {
                    Some(s) => {
                        let n = rng.gen_range(1..30);
                        add_clues(&p, s, n, rng)
                    }
                    None => p,
                }
            }
        }
        12 => {
            // solved but for a swapped unavoidable rectangle etc.: 2 solutions
            let p = minimal_puzzle(&s, rng);
            let q = remove_clues(&p, 1, rng);
            let sols = solve(&q, 2);
            if sols.len() == 2 {
                let mut g = s;
                for c in 0..81 {
                    if sols[0][c] != sols[1][c] {
                        g[c] = 0
                    }
                }
                g
            } else {
                q
            }
        }
        _ => {
            // only some digits / some bands given
            let mut g = s;
            let keep: u16 = rng.gen::<u16>() & 0x3fe;
            if rng.gen() {
                for x in g.iter_mut() {
                    if keep >> *x & 1 == 0 {
                        *x = 0
                    }
                }
            } else {
                let rows: u16 = rng.gen();
                for (i, x) in g.iter_mut().enumerate() {
                    if rows >> (i / 9) & 1 == 0 {
                        *x = 0
                    }
                }
            }
            g
        }
    }
}
