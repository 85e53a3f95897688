#![allow(dead_code)]
mod driver;
mod gen;
mod props;
mod model;
mod langs;
mod lexref;
mod pools;
mod tree;
mod dynlang;
mod refeng;
mod gengram;
mod fallmodel;
mod rustmodel;
mod ntree;

use driver::*;

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
    let progress = std::env::var("VERIF_PROGRESS").ok().map(Into::into);
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => {
            let tier = if arg(3).is_empty() { "quick".to_owned() } else { arg(3) };
            supervise(find(&arg(2)), &Opts { tier, seed, cases, progress: None })
        }
        "search" => {
            limit_self(0, 20 << 30);
            let _ = TIER.set(arg(3));
            search(find(&arg(2)), &Opts { tier: arg(3), seed, cases, progress })
        }
        "one" => {
            let p = find(&arg(2));
            limit_self(arg(4).parse().unwrap_or(60), 6 << 30);
            let tape: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(arg(3)).unwrap()).unwrap();
            props::codegen::prepare(p.id, seed, &arg(5));
            let r = with_stack(|| {
                let mut ctx = Ctx { want_desc: true, thorough: arg(5) == "thorough", ..Ctx::default() };
                run_case(p, &tape, &mut ctx)
            });
            if r.is_ok() { 0 } else { 1 }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let tape: Vec<u32> = serde_json::from_value(v["tape"].clone()).unwrap();
            let tier = v["tier"].as_str().unwrap_or("quick").to_owned();
            props::codegen::prepare(p.id, v["seed"].as_u64().unwrap_or(1), &tier);
            let (r, d) = with_stack(|| {
                let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                let r = run_case(p, &tape, &mut ctx);
                (r, ctx.desc)
            });
            println!("{}", d);
            match r {
                Ok(()) => { println!("replay holds"); 0 }
                Err(f) => {
                    println!("{}", f.msg);
                    println!("VIOLATION property={} replay={}", p.id, arg(2));
                    1
                }
            }
        }
        "render" => props::render::child(&args[2..]),
        "serve" => {
            props::index::serve(&args[2..]);
            0
        }
        "list" => {
            for p in props::ALL.iter() { println!("{}", p.id) }
            0
        }
        _ => { eprintln!("usage: harness check <ID> [quick|thorough] | replay <file> | list"); 2 }
    };
    std::process::exit(code);
}
