mod c16;
mod chk;
mod cli;
mod c13;
mod c20;
mod c25;
mod c26;
mod c27;
mod c29;
mod ckpt;
mod exec;
mod gen;
mod host;
mod hostmodel;
mod mb;
mod props;
mod puff;
mod refi;
mod shape;
mod rng;
mod sweep;
mod big;
mod wasi;

fn main() {
    exec::hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("dump") => {
            let b = std::fs::read(&a[2]).unwrap();
            dump(&b);
        }
        Some("load") => {
            let b = std::fs::read(&a[2]).unwrap();
            host::reset(hostmodel::HostModel::new(1));
            let t = std::time::Instant::now();
            let ci = exec::load(&b, &[]);
            println!("loaded {} in {:?}", ci.is_ok(), t.elapsed());
            if let Some(f) = a.get(3) {
                println!("{:?} {:?}", exec::call(&ci.unwrap(), f, &[], &exec::RunOpt::default()), t.elapsed());
            }
        }
        Some("wat") => {
            let b = wat::parse_file(&a[2]).unwrap();
            wasmparser::Validator::new().validate_all(&b).unwrap();
            std::fs::write(&a[3], b).unwrap();
        }
        Some("version") => {}
        Some("pregen") => {
            // DIR SEED COUNT PARTS
            std::env::set_current_dir(&a[2]).unwrap();
            c27::pregen(".", a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
        }
        Some("cligen") => {
            // DIR SEED KIND=COUNT...
            cli::generate(&a[2], a[3].parse().unwrap(), &a[4..]);
        }
        Some("rerun") => {
            // DIR FILE SECONDS FROM
            std::env::set_current_dir(&a[2]).unwrap();
            c27::rerun(&a[3], a[4].parse().unwrap(), a[5].parse().unwrap());
        }
        Some("check") => {
            let mut x = chk::Args { prop: String::new(), seed: 1, part: (0, 1), build: 0, thorough: false, out: String::new(), cap: 1e9, only: None, scale: 1.0, digests: false };
            let mut dir = None;
            let mut it = a[2..].iter();
            while let Some(k) = it.next() {
                let mut v = || it.next().expect("value").clone();
                match k.as_str() {
                    "--prop" => x.prop = v(),
                    "--seed" => x.seed = v().parse().unwrap(),
                    "--part" => {
                        let s = v();
                        let (i, n) = s.split_once('/').unwrap();
                        x.part = (i.parse().unwrap(), n.parse().unwrap());
                    }
                    "--build" => x.build = v().parse().unwrap(),
                    "--tier" => x.thorough = v() == "thorough",
                    "--out" => x.out = v(),
                    "--cap" => x.cap = v().parse().unwrap(),
                    "--scale" => x.scale = v().parse().unwrap(),
                    "--dir" => dir = Some(v()),
                    "--digests" => x.digests = true,
                    "--only" => {
                        let s = v();
                        let (f, i) = s.split_once(':').unwrap();
                        x.only = Some((f.into(), i.parse().unwrap()));
                    }
                    _ => panic!("unknown option {}", k),
                }
            }
            if let Some(d) = dir {
                std::fs::create_dir_all(&d).unwrap();
                std::env::set_current_dir(&d).unwrap();
            }
            let (fams, rel) = (props::families(&x.prop), props::relevant(&x.prop));
            let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
                exec::hook();
                chk::worker(x, fams, rel)
            });
            let code = h.unwrap().join().unwrap_or(98);
            std::process::exit(code);
        }
        _ => panic!("usage"),
    }
}

pub fn dump(b: &[u8]) {
    let m = refi::RModule::decode(b).unwrap();
    for (i, t) in m.types.iter().enumerate() {
        println!("type {}: {:?} -> {:?}", i, t.params, t.results);
    }
    println!("mem {:?} tables {:?}", m.mem, m.tables);
    for (i, f) in m.funcs.iter().enumerate() {
        match &f.import {
            Some(x) => println!("func {} type {} import {:?}", i, f.ty, x),
            None => {
                println!("func {} type {} locals {:?}", i, f.ty, f.locals);
                let mut ind = 1;
                for (pc, o) in f.code.iter().enumerate() {
                    let s = format!("{:?}", o);
                    if s.starts_with("End") || s.starts_with("Else") {
                        ind -= 1;
                    }
                    println!("{:4} {}{}", pc, "  ".repeat(ind.max(0) as usize), s);
                    if s.starts_with("Block") || s.starts_with("Loop") || s.starts_with("If") || s.starts_with("Else") {
                        ind += 1;
                    }
                }
            }
        }
    }
}
