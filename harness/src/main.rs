mod common;
mod p_cli;
mod p_csv;
mod p_dc;
mod p_decomp;
mod p_io;
mod p_driver;
mod p_time;
use common::Ctx;
use std::path::PathBuf;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, thorough, dir) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3] == "thorough", PathBuf::from(&a[4]));
    std::panic::set_hook(Box::new(|_| {}));
    // a case that runs for a minute does not come back
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = common::beat();
            if b != last { last = b; since = std::time::Instant::now(); }
            if since.elapsed().as_secs() > 90 { eprintln!("a case does not end"); std::process::exit(97); }
        }
    });
    let mut c = Ctx::new(seed, thorough, dir.clone());
    match prop.as_str() {
        "merge-order" => p_driver::merge_order(&mut c),
        "time-range" => p_driver::time_range(&mut c),
        "graph-flow" => p_driver::graph_flow(&mut c),
        "header-flow" => p_driver::header_flow(&mut c),
        "error-stop" => p_driver::error_stop(&mut c),
        "reader" => p_io::reader(&mut c),
        "same-contents" => p_io::same_contents(&mut c),
        "remove-multiple" => p_io::remove_multiple(&mut c),
        "filters" => p_io::filters(&mut c),
        "multi-file" => p_io::multi_file(&mut c),
        "csv-sink" => p_csv::sink(&mut c),
        "csv-source" => p_csv::source(&mut c),
        "csv-guess" => p_csv::guess(&mut c),
        "decompress" => p_decomp::decompression(&mut c),
        "zip" => p_decomp::zip(&mut c),
        "input-format" => p_decomp::input_format(&mut c),
        "time-parse" => p_time::time_parse(&mut c),
        "time-detect" => p_time::time_detect(&mut c),
        "dc-roundtrip" => p_dc::roundtrip(&mut c),
        "cli" => p_cli::cli(&mut c),
        "dc-read" => p_dc::read(&mut c),
        p => { eprintln!("no harness for {}", p); std::process::exit(98) }
    }
    let fails: Vec<String> = c.fails.iter().map(|f| format!("{{\"key\":{},\"case\":{},\"why\":{}}}", js(&f.key), js(&f.case), js(&f.why))).collect();
    let samples: Vec<String> = c.samples.iter().map(|s| js(s)).collect();
    std::fs::write(dir.join("result.json"), format!("{{\"cases\":{},\"distinct\":{},\"fails\":[{}],\"samples\":[{}]}}", c.cases, c.seen.len(), fails.join(","), samples.join(","))).unwrap();
}
