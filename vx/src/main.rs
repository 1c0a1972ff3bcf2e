//! vx: mechanical extraction of functions from the macro-expanded source of
//! /repo into a Verus input file, weaving in the contracts of a unit file.
//!
//! usage: vx --expanded EXPANDED.rs --unit UNIT.vrs --out OUT.rs --report OUT.json
//!
//! Everything the extraction changes is counted in the report ("normalised").

mod index;
mod inline;
mod norm;
mod print;
mod unit;

use std::collections::BTreeMap;
use std::fs;

pub type Counts = BTreeMap<String, usize>;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut expanded, mut unit, mut out, mut report) = (None, None, None, None);
    let mut opts = unit::Opts::default();
    let mut list = false;
    let mut locals = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--expanded" => expanded = args.next(),
            "--unit" => unit = args.next(),
            "--out" => out = args.next(),
            "--report" => report = args.next(),
            "--list" => list = true,
            "--locals" => {
                for l in fs::read_to_string(args.next().unwrap()).unwrap_or_default().lines() {
                    if let Some((k, names)) = l.split_once('\t') {
                        opts.locals.insert(k.to_owned(), names.split_whitespace().map(str::to_owned).collect());
                    }
                }
            }
            "--list-locals" => locals = true,
            "--probe" => opts.probe = true,
            "--drop" => opts
                .dropped
                .extend(fs::read_to_string(args.next().unwrap()).unwrap_or_default().lines().map(str::to_owned)),
            _ => panic!("unknown argument {}", a),
        }
    }
    let src = fs::read_to_string(expanded.expect("--expanded")).expect("read expanded");
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vx: cannot parse expanded source: {}", e);
            std::process::exit(3);
        }
    };
    let idx = index::Index::build(&file);
    if list {
        for k in idx.fns.keys() {
            println!("fn {}", k);
        }
        for k in idx.items.keys() {
            println!("item {}", k);
        }
        return;
    }
    if locals {
        for (k, f) in &idx.fns {
            if let Some(b) = &f.block {
                let mut b = b.clone();
                syn::visit_mut::VisitMut::visit_block_mut(&mut norm::StripAttrs, &mut b);
                println!("{}\t{}", k, norm::locals(&b).join(" "));
            }
        }
        return;
    }
    let unit_path = unit.expect("--unit");
    let res = unit::process(&idx, &unit_path, &opts);
    fs::write(out.expect("--out"), &res.text).expect("write out");
    fs::write(report.expect("--report"), res.report_json()).expect("write report");
}
