//! P23: position types.
use crate::ctx::Ctx;
use serde_json::{json, Value};
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::{Candidate, Digit};
use sudoku::errors::InvalidEntry;
use std::cmp::Ordering;

pub fn run(ctx: &mut Ctx) {
    let mut evs: Vec<Value> = vec![];
    macro_rules! ctor {
        ($($T:ident),*) => {$({
            let t = stringify!($T);
            let mut e = (vec![], vec![], vec![], vec![]);
            let mut same = true;
            for v in 0..=255u8 {
                let inp = || json!([t, v]);
                let c = ctx.call("new_checked", &inp, || $T::new_checked(v)).flatten();
                let n = ctx.try_call("new", &inp, || $T::new(v)).ok();
                if let Some(x) = c {
                    e.0.push(v);
                    e.2.push(x.get());
                    e.3.push(x.as_index());
                }
                if n.is_some() { e.1.push(v); }
                same &= c == n;
            }
            let all: Vec<u8> = $T::all().map(|x| x.get()).take(300).collect();
            evs.push(json!({"k":"ctor","t":t,"checked":e.0,"new":e.1,"get":e.2,"index":e.3,"all":all,"same":same}));
            let ord: Vec<Vec<i32>> = $T::all().map(|a| $T::all().map(|b| match (a.cmp(&b), a == b, a < b) {
                (Ordering::Less, false, true) => -1, (Ordering::Equal, true, false) => 0, (Ordering::Greater, false, false) => 1, _ => 9 }).collect()).collect();
            evs.push(json!({"k":"ord","t":t,"v":ord}));
        })*};
    }
    ctor!(Cell, Row, Col, Block, Line, House, MiniRow, MiniCol, MiniLine, Band, Stack, Chute, Digit);

    fn ixs(s: Set<Cell>) -> Vec<usize> {
        s.into_iter().map(|c| c.as_index()).collect()
    }
    macro_rules! cells {
        ($($T:ident),*) => {$({
            let v = ctx.call("cells", &|| json!(stringify!($T)), || $T::all().map(|x| ixs(x.cells())).collect::<Vec<_>>());
            if let Some(v) = v { evs.push(json!({"k":"cells","t":stringify!($T),"v":v})); }
        })*};
    }
    cells!(Cell, Row, Col, Block, Line, House, MiniRow, MiniCol, MiniLine, Band, Stack, Chute);

    macro_rules! put {
        ($op:expr, $e:expr) => { if let Some(v) = ctx.call($op, &|| Value::Null, || $e) { evs.push(v); } };
    }
    put!("Line::categorize", json!({"k":"cat","t":"Line","v":Line::all().map(|x| match x.categorize() {
        LineType::Row(r) => json!(["Row", r.get()]), LineType::Col(r) => json!(["Col", r.get()]) }).collect::<Vec<_>>()}));
    put!("House::categorize", json!({"k":"cat","t":"House","v":House::all().map(|x| match x.categorize() {
        HouseType::Row(r) => json!(["Row", r.get()]), HouseType::Col(r) => json!(["Col", r.get()]),
        HouseType::Block(r) => json!(["Block", r.get()]) }).collect::<Vec<_>>()}));
    put!("Chute::categorize", json!({"k":"cat","t":"Chute","v":Chute::all().map(|x| match x.categorize() {
        ChuteType::Band(r) => json!(["Band", r.get()]), ChuteType::Stack(r) => json!(["Stack", r.get()]) }).collect::<Vec<_>>()}));
    put!("MiniLine::categorize", json!({"k":"cat","t":"MiniLine","v":MiniLine::all().map(|x| match x.categorize() {
        MiniLineType::MiniRow(r) => json!(["MiniRow", r.get()]), MiniLineType::MiniCol(r) => json!(["MiniCol", r.get()]) }).collect::<Vec<_>>()}));

    macro_rules! conv {
        ($($F:ident => $T:ident),*) => {$(
            put!("conversion", json!({"k":"conv","from":stringify!($F),"to":stringify!($T),"v":$F::all().map(|x| $T::from(x).get()).collect::<Vec<_>>()}));
        )*};
    }
    conv!(Row => Line, Col => Line, Row => House, Col => House, Line => House, Block => House, Band => Chute, Stack => Chute,
        Cell => Row, Cell => Col, Cell => Block, Cell => Band, Cell => Stack);
    put!("Cell::row", json!({"k":"conv","from":"Cell","to":"Row","v":Cell::all().map(|x| x.row().get()).collect::<Vec<_>>()}));
    put!("Cell::col", json!({"k":"conv","from":"Cell","to":"Col","v":Cell::all().map(|x| x.col().get()).collect::<Vec<_>>()}));
    put!("Cell::block", json!({"k":"conv","from":"Cell","to":"Block","v":Cell::all().map(|x| x.block().get()).collect::<Vec<_>>()}));

    macro_rules! pos {
        ($($T:ident),*) => {$(
            put!("position", json!({"k":"pos","t":stringify!($T),"v":Cell::all().map(|x| Position::<$T>::from(x).get()).collect::<Vec<_>>()}));
        )*};
    }
    pos!(Row, Col, Block, Band);
    macro_rules! same {
        ($($F:ident => $T:ident, $n:expr);*) => {$(
            put!("position", json!({"k":"same","v":(0..$n).map(|i| Position::<$T>::from(Position::<$F>::new(i)).get()).collect::<Vec<u8>>()}));
            put!("position", json!({"k":"same","v":(0..$n).map(|i| Position::<$F>::new(i).as_index()).collect::<Vec<usize>>()}));
        )*};
    }
    same!(Row => Line, 9; Col => Line, 9; Row => House, 9; Col => House, 9; Line => House, 9; Block => House, 9; Chute => Band, 27);
    put!("as_line_set", json!({"k":"same","v":(0..512u16).map(|b| Set::<Position<House>>::from_bits(b).as_line_set().bits()).collect::<Vec<u16>>()}));

    macro_rules! at {
        ($($T:ident),*) => {$(
            put!("cell_at", json!({"k":"at","t":stringify!($T),"v":$T::all().map(|x| (0..9).map(|p| x.cell_at(Position::new(p)).get()).collect::<Vec<u8>>()).collect::<Vec<_>>()}));
        )*};
    }
    at!(Row, Col, Block, Line, House);
    for x in Line::all() {
        put!("cells_at", json!({"k":"cellsat","t":"Line","n":x.get(),"v":(0..512u16).map(|b| ixs(x.cells_at(Set::from_bits(b)))).collect::<Vec<_>>()}));
    }
    for x in House::all() {
        put!("cells_at", json!({"k":"cellsat","t":"House","n":x.get(),"v":(0..512u16).map(|b| ixs(x.cells_at(Set::from_bits(b)))).collect::<Vec<_>>()}));
    }
    // candidates
    let mut v = vec![];
    let mut parts = vec![];
    for c in 0..=255u8 {
        let mut ok = vec![];
        for d in 0..=255u8 {
            if let Ok(x) = ctx.try_call("Candidate::new", &|| json!([c, d]), || Candidate::new(c, d)) {
                ok.push(d);
                parts.push(json!([x.cell.get(), x.digit.get(), x.row().get(), x.col().get(), x.block().get()]));
            }
        }
        v.push(ok);
    }
    evs.push(json!({"k":"cand","v":v,"parts":parts}));
    put!("InvalidEntry", json!({"k":"entry","v":(0..81).map(|c| { let x = InvalidEntry { cell: c, ch: 'x' }; json!([x.row(), x.col(), x.block()]) }).collect::<Vec<_>>()}));

    for (i, e) in evs.into_iter().enumerate() {
        if ctx.mine(i) {
            // corrupt one number somewhere
            let mut c = e.clone();
            let n = c["v"].as_array().map_or(0, |a| a.len());
            if n > 0 && e["k"] != "cand" {
                let x = (i * 7 + 3) % n;
                if let Some(y) = (1..n).map(|k| c["v"][(x + k) % n].clone()).find(|y| *y != c["v"][x]) {
                    c["v"][x] = y;
                    ctx.canary(c);
                }
            }
            ctx.emit(e);
        }
    }
}
