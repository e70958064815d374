//! Bounded stand-in for the contracts: the real library is run through its public interface on generated
//! inputs and compared with executable reference specifications written from the properties.
mod ctx;
mod fg;
mod rd;
mod refcard;
mod p_header;
mod p_hdu;
mod p_image;
mod p_large;
mod p_table;
mod p_tile;
mod p_misc;

use std::time::Duration;

fn main() {
    let mut prop = String::new();
    let mut seed = 1u64;
    let mut thorough = false;
    let mut only = None;
    let mut trace = None;
    let mut budget = 40u64;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--thorough" => thorough = true,
            "--only" => only = Some(a.next().unwrap().parse().unwrap()),
            "--trace" => trace = Some(a.next().unwrap()),
            "--budget" => budget = a.next().unwrap().parse().unwrap(),
            p => prop = p.to_string(),
        }
    }
    let mut c = ctx::Ctx::new(seed, thorough, only, trace, Duration::from_secs(budget));
    let rule = match prop.as_str() {
        "C01" => p_header::c01(&mut c),
        "C02" => p_header::c02(&mut c),
        "C03" => p_header::c03(&mut c),
        "C04" => p_header::c04(&mut c),
        "C05" => p_hdu::c05(&mut c),
        "C06" => p_hdu::c06(&mut c),
        "C07" => p_image::c07(&mut c),
        "C08" => p_image::c08(&mut c),
        "C09" => p_image::c09(&mut c),
        "C10" => p_table::c10(&mut c),
        "C11" => p_table::c11(&mut c),
        "C12" => p_table::c12(&mut c),
        "C13" => p_table::c13(&mut c),
        "C14" => p_tile::c14(&mut c),
        "C15" => p_tile::c15(&mut c),
        "C16" => p_tile::c16(&mut c),
        "C17" => p_misc::c17(&mut c),
        "C18" => p_misc::c18(&mut c),
        "C19" => p_misc::c19(&mut c),
        "C20" => p_misc::c20(&mut c),
        _ => panic!("unknown property {prop}"),
    };
    for f in &c.failures {
        println!("FAILURE {}", ctx::failure_json(f));
    }
    let samples: Vec<String> = c.samples.iter().map(|s| ctx::jstr(s)).collect();
    let labels: Vec<String> = c.labels.iter().map(|(l, n)| format!("{}:{n}", ctx::jstr(l))).collect();
    println!(
        "SUMMARY {{\"evaluations\":{},\"distinct_nontrivial\":{},\"facts\":{},\"rule\":{},\"kinds\":{{{}}},\"samples\":[{}],\"secs\":{:.2},\"cut_short\":{}}}",
        c.labels.iter().map(|l| l.1).sum::<u64>(),
        c.distinct.len(),
        c.facts,
        ctx::jstr(rule),
        labels.join(","),
        samples.join(","),
        c.start.elapsed().as_secs_f64(),
        c.start.elapsed() >= c.budget
    );
    if c.failures.iter().any(|f| f.known.is_none()) {
        std::process::exit(1);
    }
}
