mod boolean;
mod cross;
mod alg;
mod measure;
mod boxes;
mod conv;
mod file;
mod isect;
mod lazy;
mod mesh;
mod meshl;
mod vset;
mod meshc;
mod meshq;
mod pred;
mod remesh;
mod sc;
mod solid;
mod tri2;
mod util;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let dom = a.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out").expect("--out FILE");
    let mut cx = Ctx::new(seed, thorough, &out, get("--in"));
    match dom.as_str() {
        "orient" => pred::run_orient(&mut cx),
        "line" => pred::run_line(&mut cx),
        "seg" => isect::run_seg(&mut cx),
        "tt" => isect::run_tt(&mut cx),
        "hull" => isect::run_hull(&mut cx),
        "circle" => pred::run_circle(&mut cx),
        "tree" => boxes::run_tree(&mut cx),
        "box" => boxes::run_box(&mut cx),
        "lazy" => lazy::run(&mut cx),
        "mesh" => mesh::run(&mut cx),
        "meshq" => meshq::run(&mut cx),
        "meshl" => meshl::run(&mut cx),
        "vset" => vset::run(&mut cx),
        "meshc" => meshc::run(&mut cx),
        "iodoc" => file::docs(&mut cx),
        "iort" => file::trips(&mut cx),
        "tri2" => tri2::run(&mut cx),
        "solid" => solid::run(&mut cx),
        "boolean" => boolean::run(&mut cx),
        "cross" => cross::run(&mut cx),
        "remesh" => remesh::run(&mut cx),
        "alg" => alg::run(&mut cx),
        "conv" => conv::run(&mut cx),
        "measure" => measure::run(&mut cx),
        "tri" => pred::run_tri(&mut cx),
        _ => {
            eprintln!("unknown domain {dom}");
            std::process::exit(2);
        }
    }
    eprintln!("events {}", cx.n);
    cx.finish();
}
