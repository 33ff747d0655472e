mod api;
mod canon;
mod corpus;
mod formats;
mod ctx;
mod geometry;
mod gen;
mod refs;
mod sets;
mod session;
mod solver;
mod strategies;
mod values;

fn main() {
    // harness PROP OUT.ndjson META.json SEED TIER SHARD NSHARDS
    let a: Vec<String> = std::env::args().collect();
    let (prop, out, meta) = (a[1].as_str(), a[2].as_str(), a[3].clone());
    let seed: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "thorough";
    let shard: u64 = a[6].parse().unwrap();
    let nshards: u64 = a[7].parse().unwrap();
    let prop = prop.to_string();
    let out = out.to_string();
    // large stack: the harness recurses over search trees
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = ctx::Ctx::new(&out, seed, thorough, shard, nshards);
            // a harness panic outside library calls: what was recorded so far is kept
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop.as_str() {
                "P01" | "P02" | "P03" | "P04" => solver::run(&mut c, &prop),
                "P11" | "P12" | "P13" | "P14" | "P15" => formats::run(&mut c, &prop),
                "P22" => sets::run(&mut c),
                "P27" => values::run(&mut c),
                "P23" => geometry::run(&mut c),
                "P05" | "P06" | "P07" => gen::run(&mut c, &prop),
                "P16" | "P17" | "P18" => strategies::run(&mut c, &prop),
                "P08" | "P09" | "P10" => canon::run(&mut c, &prop),
                "P24" | "P25" | "P26" => api::run(&mut c, &prop),
                "P19" | "P20" | "P21" => session::run(&mut c, &prop),
                _ => panic!("unknown property {prop}"),
            }));
            c.finish(&meta);
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
