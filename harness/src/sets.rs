//! P22: bitsets.
use crate::ctx::Ctx;
use rand::rngs::StdRng;
use rand::Rng;
use serde_json::{json, Value};
use sudoku::bitset::{Empty, Set};
use sudoku::board::positions::{House, Line, Position};
use sudoku::board::{Cell, Digit};

type Bits = u128;

fn pos(b: Bits) -> Vec<u32> {
    (0..128).filter(|i| b >> i & 1 == 1).collect()
}

/// interesting subsets of 0..n
fn subsets(rng: &mut StdRng, n: u32, k: usize) -> Vec<Bits> {
    let full: Bits = (1 << n) - 1;
    let mut v = vec![0, full, full >> 1, full & !1, 1, 1 << (n - 1)];
    for _ in 0..k {
        let x: Bits = rng.gen::<Bits>() & full;
        v.push(match rng.gen_range(0..8) {
            0 => 1 << rng.gen_range(0..n),
            1 => full ^ (1 << rng.gen_range(0..n)),
            2 => (1 << rng.gen_range(0..n)) | (1 << rng.gen_range(0..n)),
            3 => x & rng.gen::<Bits>() & rng.gen::<Bits>(),
            4 => x | rng.gen::<Bits>() & full,
            5 => full >> rng.gen_range(0..n),
            6 => full & !(full >> rng.gen_range(0..n)),
            _ => x,
        });
    }
    v
}

macro_rules! set_ops {
    ($ctx:expr, $rng:expr, $name:expr, $T:ty, $S:ty, $n:expr, $mk:expr, $samples:expr) => {{
        let ctx: &mut Ctx = $ctx;
        let rng: &mut StdRng = $rng;
        let n: u32 = $n;
        let t = $name;
        let mk = |i: u32| -> $T { $mk(i as u8) };
        let set = |b: Bits| -> Set<$T> { Set::from_bits(b as $S) };
        let raw = |s: Set<$T>| -> Vec<u32> { pos(s.bits() as Bits) };
        let one = |b: Bits| -> Value {
            let s = set(b);
            let mut it = s.into_iter();
            let mut elems: Vec<u32> = vec![];
            while let Some(x) = it.next() {
                elems.push(x.as_index() as u32);
                if elems.len() > 200 { break; }
            }
            let again = it.next().is_some() || it.next().is_some();
            let unique = match s.unique() {
                Err(Empty) => json!({"r":"empty"}),
                Ok(None) => json!({"r":"none"}),
                Ok(Some(x)) => json!({"r":"some","e":x.as_index()}),
            };
            let bin: Vec<u8> = format!("{:b}", s).bytes().map(|b| b.wrapping_sub(b'0')).collect();
            json!({"k":"one","t":t,"a":pos(b),"raw":raw(s),"iter":elems,"again":again,"len":s.len(),"empty":s.is_empty(),
                "full":s.is_full(),"unique":unique,"not":raw(!s),"bin":bin})
        };
        let two = |a: Bits, b: Bits| -> Value {
            let (x, y) = (set(a), set(b));
            let mut m = [x; 4];
            m[0] &= y;
            m[1] |= y;
            m[2] ^= y;
            m[3].remove(y);
            json!({"k":"two","t":t,"a":pos(a),"b":pos(b),"and":raw(x & y),"or":raw(x | y),"xor":raw(x ^ y),"without":raw(x.without(y)),
                "and_a":raw(m[0]),"or_a":raw(m[1]),"xor_a":raw(m[2]),"remove":raw(m[3]),
                "overlaps":x.overlaps(y),"contains":x.contains(y),"eq":x == y})
        };
        let el = |a: Bits, i: u32| -> Value {
            let x = set(a);
            let e = mk(i);
            let mut m = [x; 3];
            m[0] &= e;
            m[1] |= e;
            m[2] ^= e;
            json!({"k":"el","t":t,"a":pos(a),"e":i,"and":raw(x & e),"or":raw(x | e),"xor":raw(x ^ e),
                "and_a":raw(m[0]),"or_a":raw(m[1]),"xor_a":raw(m[2]),"contains":x.contains(e),
                "as_set":raw(e.as_set()),"from":raw(Set::<$T>::from(e))})
        };
        if ctx.shard == 0 {
            ctx.emit(json!({"k":"const","t":t,"all":raw(Set::<$T>::ALL),"none":raw(Set::<$T>::NONE)}));
        }
        // raw bits
        let width = <$S>::BITS;
        if width == 16 && ctx.shard == 0 {
            let mut iv: Vec<(u32, u32)> = vec![];
            for b in 0..=u16::MAX as u32 {
                let ok = ctx.try_call("from_bits", &|| json!([t, b]), || Set::<$T>::from_bits(b as $S)).is_ok();
                if ok {
                    match iv.last_mut() {
                        Some(x) if x.1 + 1 == b => x.1 = b,
                        _ => iv.push((b, b)),
                    }
                }
            }
            ctx.emit(json!({"k":"raw16","t":t,"ok":iv}));
            ctx.canary(json!({"k":"raw16","t":t,"ok":[[0, 512]]}));
        }
        let sub = subsets(rng, n, $samples);
        for i in 0..width {
            if !ctx.mine(i as usize) { continue; }
            for &a in sub.iter().take(20) {
                let b = a | 1 << i;
                let ok = ctx.try_call("from_bits", &|| json!([t, pos(b)]), || Set::<$T>::from_bits(b as $S)).is_ok();
                ctx.emit(json!({"k":"raw","t":t,"a":pos(b),"ok":ok}));
            }
        }
        macro_rules! ev {
            ($e:expr, $bad:expr, $d:expr) => {
                if let Some(v) = ctx.call("set operation", &|| $d, || $e) {
                    ctx.emit(v);
                }
            };
        }
        if n == 9 {
            // exhaustive
            for a in 0..512u32 {
                if !ctx.mine(a as usize) { continue; }
                ev!(one(a as Bits), 0, json!([t, a]));
                for i in 0..9 {
                    ev!(el(a as Bits, i), 0, json!([t, a, i]));
                }
                ev!({
                    let x = set(a as Bits);
                    let mut r: Vec<Vec<u32>> = vec![vec![]; 10];
                    for b in 0..512u32 {
                        let y = set(b as Bits);
                        let mut m = [x; 4];
                        m[0] &= y;
                        m[1] |= y;
                        m[2] ^= y;
                        m[3].remove(y);
                        for (k, v) in [x & y, x | y, x ^ y, x.without(y), m[0], m[1], m[2], m[3]].iter().enumerate() {
                            r[k].push(v.bits() as u32);
                        }
                        r[8].push(x.overlaps(y) as u32);
                        r[9].push(x.contains(y) as u32);
                    }
                    json!({"k":"tab","t":t,"a":a,"and":r[0],"or":r[1],"xor":r[2],"without":r[3],"and_a":r[4],"or_a":r[5],"xor_a":r[6],
                        "remove":r[7],"overlaps":r[8],"contains":r[9]})
                }, 0, json!([t, a]));
                ctx.n_calls += 512 * 10;
            }
        }
        for (k, &a) in sub.iter().enumerate() {
            ev!(one(a), 0, json!([t, pos(a)]));
            let b = sub[rng.gen_range(0..sub.len())];
            ev!(two(a, b), 0, json!([t, pos(a), pos(b)]));
            if k % 8 == 0 {
                ev!(two(a, a), 0, json!([t, pos(a), pos(a)]));
            }
            let i = rng.gen_range(0..n);
            ev!(el(a, i), 0, json!([t, pos(a), i]));
            if k == 7 {
                let mut c = two(a, b);
                c["overlaps"] = json!(!c["overlaps"].as_bool().unwrap());
                ctx.canary(c);
                let mut c = one(1 << (n - 1) | 1);
                c["iter"] = json!([0]);
                ctx.canary(c);
                let mut c = el(a, i);
                c["xor"] = c["a"].clone();
                ctx.canary(c);
            }
        }
        // every element alone, missing, and with each neighbour
        for i in 0..n {
            if !ctx.mine(i as usize) { continue; }
            let full: Bits = (1 << n) - 1;
            for a in [0, full, 1 << i, full ^ 1 << i] {
                ev!(el(a, i), 0, json!([t, pos(a), i]));
                ev!(one(a), 0, json!([t, pos(a)]));
            }
            for j in 0..n {
                ev!(two(1 << i, 1 << j), 0, json!([t, i, j]));
                if i < j {
                    ev!(one(1 << i | 1 << j), 0, json!([t, i, j]));
                }
            }
        }
    }};
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(22);
    let k = if ctx.thorough { 40000 } else { 900 };
    let k = ctx.part(k);
    set_ops!(ctx, &mut rng, "Digit", Digit, u16, 9, |i: u8| Digit::new(i + 1), k / 4);
    set_ops!(ctx, &mut rng, "PosLine", Position<Line>, u16, 9, Position::new, k / 4);
    set_ops!(ctx, &mut rng, "PosHouse", Position<House>, u16, 9, Position::new, k / 4);
    set_ops!(ctx, &mut rng, "Line", Line, u32, 18, Line::new, k);
    set_ops!(ctx, &mut rng, "House", House, u32, 27, House::new, k);
    set_ops!(ctx, &mut rng, "Cell", Cell, u128, 81, Cell::new, k);
}
