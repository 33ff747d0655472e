//! P11-P15: parsers, texts, bytes, serde.
use crate::ctx::Ctx;
use crate::refs::*;
use crate::solver::sud;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use sudoku::errors::*;
use sudoku::Sudoku;

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn ok(s: &Sudoku) -> Value {
    json!({"r":"ok","g":gv(&s.to_bytes())})
}
fn err(e: &str, n: usize, ch: u32) -> Value {
    json!({"r":"err","e":e,"n":n,"ch":ch})
}
pub fn line_outcome(r: &Result<Sudoku, LineParseError>) -> Value {
    match r {
        Ok(s) => ok(s),
        Err(LineParseError::InvalidEntry(i)) => err("InvalidEntry", i.cell as usize, i.ch as u32),
        Err(LineParseError::NotEnoughCells(n)) => err("NotEnoughCells", *n as usize, 0),
        Err(LineParseError::TooManyCells) => err("TooManyCells", 0, 0),
        Err(LineParseError::MissingCommentDelimiter) => err("MissingCommentDelimiter", 0, 0),
    }
}
pub fn block_outcome(r: &Result<Sudoku, BlockParseError>) -> Value {
    use BlockParseError::*;
    match r {
        Ok(s) => ok(s),
        Err(InvalidEntry(i)) => err("InvalidEntry", i.cell as usize, i.ch as u32),
        Err(InvalidLineLength(n)) => err("InvalidLineLength", *n as usize, 0),
        Err(NotEnoughRows(n)) => err("NotEnoughRows", *n as usize, 0),
        Err(IncorrectFieldDelimiter) => err("IncorrectFieldDelimiter", 0, 0),
        Err(TooManyRows) => err("TooManyRows", 0, 0),
        Err(MissingCommentDelimiter(n)) => err("MissingCommentDelimiter", *n as usize, 0),
    }
}
pub fn perm_outcome(r: &Result<Sudoku, NotEnoughRows>) -> Value {
    match r {
        Ok(s) => ok(s),
        Err(e) => err("NotEnoughRows", e.0 as usize, 0),
    }
}
/// what an error says about itself: its text and the position of the invalid character
fn described<E: std::fmt::Display>(r: &Result<Sudoku, E>, entry: impl Fn(&E) -> Option<InvalidEntry>) -> Value {
    match r {
        Ok(_) => json!({"text":[],"pos":[]}),
        Err(e) => json!({"text":cps(&e.to_string()),"pos":entry(e).map_or(vec![], |i| vec![i.row(), i.col(), i.block()])}),
    }
}
fn any_outcome<E>(r: &Result<Sudoku, E>) -> Value {
    match r {
        Ok(s) => ok(s),
        Err(_) => err("any", 0, 0),
    }
}

const ODD: &[char] = &[
    '/', ':', '-', '^', '`', ' ', '\t', '\n', '\r', ',', ';', '|', '+', '.', '_', '0', '1', '9', 'a', 'O', 'x', '\0', '\u{b}', '\u{c}',
    '\u{7f}', '\u{80}', 'é', '\u{a0}', '\u{85}', '\u{2028}', '\u{3000}', '١', '９', '😀', '\u{feff}', '²', '"', '\\', '*', '~', 'o',
];

/// texts of all formats but `own`, most of them well-formed there
fn foreign(rng: &mut StdRng, n: usize, own: char) -> Vec<String> {
    let mut v = vec![];
    for i in 0..n {
        let kind = ['l', 'b', 'p', 'r'][i % 4];
        if kind == own {
            continue;
        }
        let s = match kind {
            'l' => {
                let mut s = cells(rng, 81);
                if rng.gen() {
                    s += ["\n", " ", "\t", "\r\n", ",", ";", " comment"][rng.gen_range(0..7)];
                }
                s
            }
            'b' => block_string(rng),
            'p' => permissive_string(rng),
            _ => {
                // rows with every kind of separator between cells, rows and bands
                let digits: Vec<char> = cells(rng, 81).chars().collect();
                let cell = *["", "", " ", ",", "|", "\t", ";"].choose(rng).unwrap();
                let row = *["\n", "\r\n", " ", "\r", ";", ",", "\n\n", "/", "\u{b}", "\u{c}", "\u{2028}"].choose(rng).unwrap();
                let band = *["", "", "\n", "---+---+---\n", " "].choose(rng).unwrap();
                let mut s = String::from(*["", "", "\n", " ", "\u{feff}", "["].choose(rng).unwrap());
                for r in 0..9 {
                    for c in 0..9 {
                        s.push(digits[r * 9 + c]);
                        if c < 8 {
                            s += cell;
                        }
                    }
                    if r < 8 || rng.gen() {
                        s += row;
                    }
                    if r % 3 == 2 && r < 8 {
                        s += band;
                    }
                }
                s
            }
        };
        v.push(if rng.gen_range(0..8) == 0 { mutate(&s, rng) } else { s });
    }
    v
}

fn cell_char(rng: &mut StdRng) -> char {
    *['.', '_', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9'].choose(rng).unwrap()
}
pub fn cells(rng: &mut StdRng, n: usize) -> String {
    let style = rng.gen_range(0..4);
    (0..n)
        .map(|_| match style {
            0 => cell_char(rng),
            1 => if rng.gen() { '.' } else { (b'1' + rng.gen_range(0..9u8)) as char },
            2 => if rng.gen() { '_' } else { (b'1' + rng.gen_range(0..9u8)) as char },
            _ => (b'1' + rng.gen_range(0..9u8)) as char,
        })
        .collect()
}
fn comment(rng: &mut StdRng) -> String {
    let n = rng.gen_range(0..14);
    (0..n).map(|_| *ODD.choose(rng).unwrap()).filter(|c| *c != '\n' && *c != '\r').collect()
}
pub fn mutate(s: &str, rng: &mut StdRng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let p = rng.gen_range(0..=v.len());
    match rng.gen_range(0..5) {
        0 if p < v.len() => { v.remove(p); }
        1 => v.insert(p, *ODD.choose(rng).unwrap()),
        2 if p < v.len() => v[p] = *ODD.choose(rng).unwrap(),
        3 => v.truncate(p),
        4 if p + 1 < v.len() => v.swap(p, p + 1),
        _ => v.push(*ODD.choose(rng).unwrap()),
    }
    v.into_iter().collect()
}

/// Strings with a long part: junk, white space, comments, empty or unusable lines
fn stretch(s: &str, rng: &mut StdRng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = 2f64.powf(rng.gen_range(4.0..10.3)) as usize;
    let unit: Vec<char> = match rng.gen_range(0..9) {
        0 => vec![' '],
        1 => vec!['\t', ' '],
        2 => vec!['\n'],
        3 => vec!['\r', '\n'],
        4 => "12.\n".chars().collect(),
        5 => comment(rng).chars().filter(|c| !c.is_ascii_digit() && *c != '.' && *c != '_').chain(['x']).collect(),
        6 => comment(rng).chars().chain(['#']).collect(),
        7 => vec![*['x', '|', '-', 'é', '😀', '0', '.'].choose(rng).unwrap()],
        _ => s.chars().take(12).chain(['\n']).collect(),
    };
    let p = match rng.gen_range(0..4) {
        0 => 0,
        1 => v.len(),
        2 => { let e: Vec<usize> = (0..v.len()).filter(|&i| v[i] == '\n').collect(); e.choose(rng).copied().unwrap_or(v.len()) }
        _ => rng.gen_range(0..=v.len()),
    };
    let run: Vec<char> = unit.iter().cloned().cycle().take(n).collect();
    v.splice(p..p, run);
    v.into_iter().collect()
}

/// valid lines with something before, after or between the cells
fn edges(rng: &mut StdRng) -> Vec<String> {
    let mut v = vec![];
    for &c in ODD {
        for n in [1, 2, 9] {
            let x: String = std::iter::repeat(c).take(n).collect();
            v.push(x.clone() + &cells(rng, 81));
            v.push(cells(rng, 81) + &x);
            v.push(x.clone() + &cells(rng, 81) + &x);
            v.push(cells(rng, 81).chars().collect::<Vec<_>>().chunks(9).map(|l| l.iter().collect::<String>() + &x).collect());
        }
    }
    v
}

fn line_strings(ctx: &Ctx, rng: &mut StdRng) -> Vec<String> {
    let mut v = vec![String::new()];
    for n in 0..=84 {
        v.push(cells(rng, n));
    }
    // every ASCII character and some others at characteristic places
    for &p in &[0usize, 1, 40, 79, 80, 81, 82] {
        for c in (0..128u8).map(|c| c as char).chain(ODD.iter().cloned()) {
            let mut s: Vec<char> = cells(rng, 83).chars().collect();
            if p == 81 {
                s.truncate(82);
            }
            if p == 82 {
                s[81] = ' ';
            }
            s[p] = c;
            let n = match p { 79 | 80 => 81, 81 => 82, _ => if c.is_ascii_control() { 81 } else { 83 } };
            v.push(s.iter().take(n.max(p + 1)).collect());
        }
    }
    for _ in 0..if ctx.thorough { 30000 } else { 3000 } {
        let mut s = cells(rng, 81);
        if rng.gen() {
            s.push(*[' ', '\t', '\n', '\r', ',', ';', '.', '1', 'x', 'é'].choose(rng).unwrap());
            s += &comment(rng);
        }
        for _ in 0..*[0, 0, 1, 1, 1, 2, 3].choose(rng).unwrap() {
            s = mutate(&s, rng);
        }
        v.push(s);
    }
    for _ in 0..if ctx.thorough { 3000 } else { 300 } {
        let mut s = cells(rng, 81);
        if rng.gen() {
            s.push(*[' ', '\t', '\n', '\r', ',', ';', '.', '1', 'x', 'é'].choose(rng).unwrap());
        }
        v.push(stretch(&s, rng));
    }
    v
}

pub fn block_string(rng: &mut StdRng) -> String {
    let fmt = rng.gen_range(0..4); // bare, dash, plus, mixed
    let nl = if rng.gen_bool(0.2) { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = vec![];
    let comments = rng.gen_bool(0.3);
    for r in 0..9 {
        if fmt > 0 && r % 3 == 0 && r > 0 {
            let plus = match fmt { 1 => false, 2 => true, _ => rng.gen() };
            lines.push(if plus { "---+---+---".into() } else { "-----------".into() });
            if comments && rng.gen() {
                let l = lines.last_mut().unwrap();
                l.push(if rng.gen_bool(0.9) { ' ' } else { '-' });
                *l += &comment(rng);
            }
        }
        let mut s = cells(rng, 9);
        if fmt > 0 {
            s.insert(6, '|');
            s.insert(3, '|');
        }
        if comments && rng.gen() {
            s.push(if rng.gen() { ' ' } else { '\t' });
            s += &comment(rng);
        }
        lines.push(s);
    }
    // changes of whole lines
    for _ in 0..*[0, 0, 0, 1, 1, 2].choose(rng).unwrap() {
        if lines.is_empty() {
            break;
        }
        let i = rng.gen_range(0..lines.len());
        match rng.gen_range(0..8) {
            0 => { lines.remove(i); }
            1 => { let l = lines[i].clone(); lines.insert(i, l); }
            2 => { let j = rng.gen_range(0..lines.len()); lines.swap(i, j); }
            3 => lines.insert(i, ["", " ", "\t", "---+---+---", "-----------", "x"].choose(rng).unwrap().to_string()),
            4 => lines[i] = mutate(&lines[i].clone(), rng),
            5 => lines.truncate(i),
            6 => { let x = cells(rng, 9); lines.push(x) }
            _ => lines[i] = cells(rng, 9),
        }
    }
    let mut s = lines.join(nl);
    match rng.gen_range(0..8) {
        0 | 1 => s += nl,
        2 => s += &format!("{nl}{nl}anything{nl}"),
        3 => s += &format!("{nl}  \t{nl}123456789"),
        4 => s += &format!("{nl}{}", ["\u{a0}", "\u{2003}\u{3000}", "\u{85}", "\r", "x", "_", "\u{feff}", "\u{200b}", " . "].choose(rng).unwrap()),
        5 => s += "\r",
        _ => (),
    }
    for _ in 0..*[0, 0, 0, 1, 1, 2, 3].choose(rng).unwrap() {
        s = mutate(&s, rng);
    }
    s
}

pub fn permissive_string(rng: &mut StdRng) -> String {
    let mut s = String::new();
    let n = *[9, 9, 9, 9, 10, 8, 3, 12, 0].choose(rng).unwrap();
    let style = rng.gen_range(0..4);
    let mut k = 0;
    while k < n {
        if rng.gen_bool(0.25) {
            // unusable line
            let m = rng.gen_range(0..9);
            s += &cells(rng, m);
            s += &comment(rng).chars().filter(|c| !c.is_ascii_digit() && *c != '.' && *c != '_').collect::<String>();
            s.push('\n');
            continue;
        }
        let m = *[9, 9, 9, 9, 9, 10, 12, 8].choose(rng).unwrap();
        for (i, c) in cells(rng, m).chars().enumerate() {
            match style {
                0 => (),
                1 => if i % 3 == 0 { s += "| " },
                2 => if rng.gen_bool(0.3) { s.push(*['|', ' ', 'a', 'é', '١', '９', '-', '\t', '😀'].choose(rng).unwrap()) },
                _ => if i > 0 { s.push(' ') },
            }
            s.push(c);
        }
        if rng.gen_bool(0.2) {
            s += &comment(rng);
        }
        s += if rng.gen_bool(0.2) { "\r\n" } else { "\n" };
        k += 1;
    }
    if rng.gen_bool(0.3) {
        s.pop();
    }
    for _ in 0..*[0, 0, 0, 1, 2].choose(rng).unwrap() {
        s = mutate(&s, rng);
    }
    s
}

fn emit_parse(ctx: &mut Ctx, kind: &str, s: &str, o: Value, d: Value) {
    *ctx.stats.entry(if o["r"] == "ok" { "ok".to_string() } else { o["e"].as_str().unwrap().to_string() }).or_insert(0) += 1;
    let ev = json!({"k":kind,"s":cps(s),"o":o,"d":d});
    if ctx.n % 400 == 3 {
        let mut c = ev.clone();
        if o["r"] == "ok" {
            c["o"]["g"][17] = json!(9 - o["g"][17].as_u64().unwrap());
        } else {
            c["o"]["n"] = json!(o["n"].as_u64().unwrap() + 1);
        }
        ctx.canary(c);
    }
    ctx.emit(ev);
}

/// strings produced by the specification's own machine, one JSON array of code points per line
fn generated(file: &str) -> Vec<String> {
    let Ok(t) = std::fs::read_to_string(file) else { return vec![] };
    t.lines()
        .filter_map(|l| serde_json::from_str::<Vec<u32>>(l).ok())
        .map(|v| v.into_iter().filter_map(char::from_u32).collect())
        .collect()
}

pub fn run(ctx: &mut Ctx, prop: &str) {
    let mut rng = ctx.rng(11);
    let rng = &mut rng;
    match prop {
        "P11" => {
            let mut v = line_strings(ctx, &mut ctx.rng(12));
            v.extend(edges(&mut ctx.rng(15)));
            v.extend(foreign(&mut ctx.rng(14), if ctx.thorough { 8000 } else { 1200 }, 'l'));
            v.extend(generated("gen-strings.ndjson"));
            for (i, s) in v.iter().enumerate() {
                if !ctx.mine(i) {
                    continue;
                }
                let inp = || json!({"string": s});
                let r = ctx.call("from_str_line", &inp, || {
                    let r = Sudoku::from_str_line(s);
                    let d = described(&r, |e| match e {
                        LineParseError::InvalidEntry(i) => Some(*i),
                        _ => None,
                    });
                    (line_outcome(&r), d)
                });
                if let Some((o, d)) = r {
                    emit_parse(ctx, "line", s, o, d);
                }
            }
        }
        "P12" => {
            let mut v = vec![String::new(), "\n".into(), "\r\n".into(), "\r".into()];
            for _ in 0..ctx.part(if ctx.thorough { 60000 } else { 6000 }) {
                v.push(block_string(rng));
            }
            for _ in 0..ctx.part(if ctx.thorough { 6000 } else { 500 }) {
                let b = block_string(rng);
                v.push(stretch(&b, rng));
            }
            v.extend(foreign(rng, ctx.part(if ctx.thorough { 8000 } else { 1200 }), 'b'));
            // every character at the places with a meaning of their own
            if ctx.shard == 0 {
                let bare = "__3_2_6__\n9__3_5__1\n__18_64__\n__81_29__\n7_______8\n__67_82__\n__26_95__\n8__2_3__9\n__5_1_3__";
                let plus = "__3|_2_|6__\n9__|3_5|__1\n__1|8_6|4__\n---+---+---\n__8|1_2|9__\n7__|___|__8\n__6|7_8|2__\n---+---+---\n__2|6_9|5__\n8__|2_3|__9\n__5|_1_|3__";
                let dash = plus.replace('+', "-");
                for b in [bare, plus, &dash] {
                    let cs: Vec<char> = b.chars().collect();
                    for p in [0, 2, 3, 4, 7, 8, 9, 10, 11, 12, 36, 37, 38, 39, 43, 46, 47, 48, cs.len() - 1, cs.len()] {
                        for ch in (32..127u8).map(|c| c as char).chain(ODD.iter().cloned()) {
                            let mut x = cs.clone();
                            if p == cs.len() || ch as u32 % 2 == 0 { x.insert(p, ch) } else { x[p] = ch }
                            v.push(x.into_iter().collect());
                        }
                    }
                    for n in 0..cs.len() {
                        v.push(cs[..n].iter().collect());
                    }
                }
            }
            v.extend(generated("gen-strings.ndjson").into_iter().enumerate().filter(|x| ctx.mine(x.0)).map(|x| x.1));
            for s in &v {
                let inp = || json!({"string": s});
                let r = ctx.call("from_str_block", &inp, || {
                    let r = Sudoku::from_str_block(s);
                    let d = described(&r, |e| match e {
                        BlockParseError::InvalidEntry(i) => Some(*i),
                        _ => None,
                    });
                    (block_outcome(&r), d)
                });
                if let Some((o, d)) = r {
                    emit_parse(ctx, "block", s, o, d);
                }
            }
        }
        "P13" => {
            let mut v = vec![String::new(), "\n".into()];
            for _ in 0..ctx.part(if ctx.thorough { 40000 } else { 4000 }) {
                v.push(permissive_string(rng));
            }
            for _ in 0..ctx.part(if ctx.thorough { 6000 } else { 700 }) {
                let b = permissive_string(rng);
                v.push(stretch(&b, rng));
            }
            v.extend(foreign(rng, ctx.part(if ctx.thorough { 8000 } else { 1600 }), 'p'));
            v.extend(generated("gen-strings.ndjson").into_iter().enumerate().filter(|x| ctx.mine(x.0)).map(|x| x.1));
            for s in &v {
                let inp = || json!({"string": s});
                let r = ctx.call("from_str_block_permissive", &inp, || {
                    let r = Sudoku::from_str_block_permissive(s);
                    let d = described(&r, |_| None);
                    (perm_outcome(&r), d)
                });
                if let Some((o, d)) = r {
                    emit_parse(ctx, "perm", s, o, d);
                }
            }
        }
        "P14" => {
            texts(ctx, rng);
            ords(ctx, rng);
            bytes(ctx, rng);
        }
        "P15" => serde_events(ctx, rng),
        _ => unreachable!(),
    }
}

/// any grid with entries up to 9, not only sudokus
fn any_grid(rng: &mut StdRng) -> Grid {
    match rng.gen_range(0..5) {
        0 => random_solved(rng),
        1 => [rng.gen_range(0..=9); 81],
        2 => {
            let mut g = [0; 81];
            for _ in 0..rng.gen_range(0..4) {
                g[rng.gen_range(0..81)] = rng.gen_range(1..=9);
            }
            g
        }
        _ => {
            let mut g = [0; 81];
            for x in g.iter_mut() {
                *x = rng.gen_range(0..=9);
            }
            g
        }
    }
}

fn texts(ctx: &mut Ctx, rng: &mut StdRng) {
    let mut gs = vec![];
    if ctx.shard == 0 {
        for c in 0..81 {
            for d in [1u8, 5, 9] {
                let mut g = [0; 81];
                g[c] = d;
                gs.push(g);
            }
        }
        for d in 0..=9 {
            gs.push([d; 81]);
        }
    }
    for _ in 0..ctx.part(if ctx.thorough { 8000 } else { 1000 }) {
        gs.push(any_grid(rng));
    }
    for g in gs {
        let inp = || json!({"grid": line(&g)});
        let s = sud(&g);
        let r = ctx.call("printing", &inp, || {
            let l = s.to_str_line();
            let deref: String = l.to_string();
            let deref2: &str = &l;
            let arr: [u8; 81] = s.into();
            let blk = s.display_block().to_string();
            json!({"k":"text","g":gv(&g),"line":cps(deref2),"linedisp":cps(&deref),"disp":cps(&s.to_string()),"dbg":cps(&format!("{:?}", l)),
                "block":cps(&blk),"bytes":gv(&s.to_bytes()),"arr":gv(&arr),
                "fromline":line_outcome(&Sudoku::from_str_line(deref2)),
                "fromblock":perm_outcome(&Sudoku::from_str_block_permissive(&blk)),
                "frombytes":any_outcome(&Sudoku::from_bytes(s.to_bytes()))})
        });
        if let Some(v) = r {
            if ctx.n % 300 == 5 {
                let mut c = v.clone();
                c["block"][0] = json!(32);
                ctx.canary(c);
            }
            ctx.emit(v);
        }
    }
}

fn ords(ctx: &mut Ctx, rng: &mut StdRng) {
    fn h<T: Hash + ?Sized>(t: &T) -> String {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        t.hash(&mut h);
        format!("{:016x}", h.finish())
    }
    for _ in 0..ctx.part(if ctx.thorough { 8000 } else { 1000 }) {
        let a = any_grid(rng);
        let mut b = a;
        match rng.gen_range(0..4) {
            0 => (),
            1 => b = any_grid(rng),
            _ => b[rng.gen_range(0..81)] = rng.gen_range(0..=9),
        }
        let inp = || json!({"a": line(&a), "b": line(&b)});
        let r = ctx.call("line comparison", &inp, || {
            let (x, y) = (sud(&a).to_str_line(), sud(&b).to_str_line());
            let s: &str = &x;
            json!({"k":"ord","a":gv(&a),"b":gv(&b),"cmp":x.cmp(&y) as i8,"pcmp":x.partial_cmp(&y).map_or(7, |c| c as i8),"eq":x == y,
                "hash":h(&x),"strhash":h(s)})
        });
        if let Some(v) = r {
            if ctx.n % 300 == 5 {
                let mut c = v.clone();
                c["cmp"] = json!(3);
                ctx.canary(c);
            }
            ctx.emit(v);
        }
    }
}

fn bytes(ctx: &mut Ctx, rng: &mut StdRng) {
    let mut bs: Vec<Vec<u8>> = vec![];
    if ctx.shard == 0 {
        for n in 0..=200 {
            bs.push(vec![rng.gen_range(0..=9); n]);
        }
        for c in 0..81 {
            for d in [9u8, 10, 11, 255] {
                let mut g = [3; 81].to_vec();
                g[c] = d;
                bs.push(g);
            }
        }
        for d in 0..=255 {
            let mut g = [0; 81].to_vec();
            g[rng.gen_range(0..81)] = d;
            bs.push(g);
        }
    }
    for _ in 0..ctx.part(if ctx.thorough { 5000 } else { 600 }) {
        let mut g = any_grid(rng).to_vec();
        match rng.gen_range(0..4) {
            0 => g[rng.gen_range(0..81)] = rng.gen_range(8..=12),
            1 => g.truncate(rng.gen_range(0..=81)),
            2 => for _ in 0..rng.gen_range(1..100) { g.push(rng.gen_range(0..11)) },
            _ => (),
        }
        bs.push(g);
    }
    for b in bs {
        let inp = || json!({"bytes": b});
        fn sl(r: Result<Sudoku, FromBytesSliceError>) -> Value {
            match r {
                Ok(s) => ok(&s),
                Err(FromBytesSliceError::WrongLength(n)) => err("WrongLength", n, 0),
                Err(FromBytesSliceError::FromBytesError(_)) => err("Content", 0, 0),
            }
        }
        fn ar(r: Result<Sudoku, FromBytesError>) -> Value {
            match r {
                Ok(s) => ok(&s),
                Err(_) => err("Content", 0, 0),
            }
        }
        let r = ctx.call("from_bytes", &inp, || {
            let mut e = json!({"k":"bytes","b":b,"slice":sl(Sudoku::from_bytes_slice(&b)),"tryslice":sl(Sudoku::try_from(&b[..])),"arr":0,"tryarr":0});
            if b.len() == 81 {
                let mut g = [0; 81];
                g.copy_from_slice(&b);
                e["arr"] = ar(Sudoku::from_bytes(g));
                e["tryarr"] = ar(Sudoku::try_from(g));
            }
            e
        });
        if let Some(v) = r {
            if ctx.n % 300 == 5 {
                let mut c = v.clone();
                c["slice"]["r"] = json!("?");
                ctx.canary(c);
            }
            ctx.emit(v);
        }
    }
}

fn serde_events(ctx: &mut Ctx, rng: &mut StdRng) {
    for _ in 0..ctx.part(if ctx.thorough { 8000 } else { 1200 }) {
        let g = any_grid(rng);
        let s = sud(&g);
        let inp = || json!({"grid": line(&g)});
        let r = ctx.call("serialize", &inp, || {
            let js = serde_json::to_string(&s).unwrap();
            let bin = bincode::serialize(&s).unwrap();
            let back = [
                any_outcome(&serde_json::from_str::<Sudoku>(&js)),
                any_outcome(&serde_json::from_reader::<_, Sudoku>(js.as_bytes())),
                any_outcome(&serde_json::from_value::<Sudoku>(serde_json::to_value(s).unwrap())),
                any_outcome(&bincode::deserialize::<Sudoku>(&bin)),
                any_outcome(&bincode::deserialize_from::<_, Sudoku>(&bin[..])),
            ];
            json!({"k":"serde","g":gv(&g),"json":cps(&js),"bin":bin,"back":back,"names":["json str","json reader","json value","bincode slice","bincode reader"]})
        });
        if let Some(v) = r {
            if ctx.n % 300 == 5 {
                let mut c = v.clone();
                c["bin"][8] = json!(77);
                ctx.canary(c);
            }
            ctx.emit(v);
        }
    }
    let mut strs = line_strings(ctx, &mut ctx.rng(12));
    strs.shuffle(&mut ctx.rng(13));
    strs.truncate(if ctx.thorough { 20000 } else { 2500 });
    strs.extend(edges(&mut ctx.rng(15)));
    // the other formats must be told apart
    strs.extend(foreign(&mut ctx.rng(14), if ctx.thorough { 6000 } else { 900 }, 'l'));
    for (i, s) in strs.iter().enumerate() {
        if !ctx.mine(i) {
            continue;
        }
        let inp = || json!({"string": s});
        let r = ctx.call("deserialize text", &inp, || {
            let js = serde_json::to_string(s).unwrap();
            // the same string with escapes
            let esc: String = format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect::<String>());
            vec![
                any_outcome(&serde_json::from_str::<Sudoku>(&js)),
                any_outcome(&serde_json::from_str::<Sudoku>(&esc)),
                any_outcome(&serde_json::from_reader::<_, Sudoku>(js.as_bytes())),
                any_outcome(&serde_json::from_value::<Sudoku>(Value::String(s.clone()))),
            ]
        });
        if let Some(o) = r {
            ctx.stat(if o[0]["r"] == "ok" { "text accepted" } else { "text rejected" }, 1);
            ctx.emit(json!({"k":"dejson","s":cps(s),"o":o}));
        }
    }
    let mut bs: Vec<Vec<u8>> = vec![];
    for n in [0usize, 1, 9, 80, 81, 82, 100, 162] {
        bs.push(vec![1; n]);
        bs.push(vec![0; n]);
    }
    for _ in 0..ctx.part(if ctx.thorough { 8000 } else { 1500 }) {
        let mut g = any_grid(rng).to_vec();
        match rng.gen_range(0..5) {
            0 => g[rng.gen_range(0..81)] = rng.gen_range(8..=12),
            1 => g[rng.gen_range(0..81)] = rng.gen(),
            2 => match rng.gen_range(0..4) {
                0 => g = line(&any_grid(rng)).into_bytes(),
                1 => g = line(&random_solved(rng)).into_bytes(),
                _ => g.truncate(rng.gen_range(60..=81)),
            },
            3 => for _ in 0..rng.gen_range(1..20) { g.push(rng.gen_range(0..10)) },
            _ => (),
        }
        bs.push(g);
    }
    for b in bs {
        let inp = || json!({"bytes": b});
        let r = ctx.call("deserialize bytes", &inp, || {
            let mut enc = (b.len() as u64).to_le_bytes().to_vec();
            enc.extend(&b);
            vec![any_outcome(&bincode::deserialize::<Sudoku>(&enc)), any_outcome(&bincode::deserialize_from::<_, Sudoku>(&enc[..]))]
        });
        if let Some(o) = r {
            ctx.stat(if o[0]["r"] == "ok" { "bytes accepted" } else { "bytes rejected" }, 1);
            ctx.emit(json!({"k":"debin","b":b,"o":o}));
        }
    }
    // human readable data that is no string
    if ctx.shard == 0 {
        let arr = serde_json::to_string(&vec![0; 81]).unwrap();
        for t in ["null", "true", "81", "-1", "1.5", "[]", "{}", "[1,2,3]", "\"\"", arr.as_str(), "{\"a\":1}"] {
            let inp = || json!({"json": t});
            if let Some(r) = ctx.call("deserialize other", &inp, || serde_json::from_str::<Sudoku>(t)) {
                ctx.emit(json!({"k":"deother","s":cps(t),"o":any_outcome(&r)}));
            }
        }
        ctx.canary(json!({"k":"deother","s":cps("1"),"o":ok(&sud(&[0; 81]))}));
    }
}
