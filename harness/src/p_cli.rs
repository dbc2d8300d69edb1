// cli: the whole tool, as a process
use crate::common::*;
use crate::p_csv::{human, ZONES};
use crate::p_dc::{ref_encode, ref_parse_rows};
use crate::p_decomp::{any_told, Comp};
use chopper::chopper::types::FieldType;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct Out { pub code: Option<i32>, pub out: Vec<u8>, pub err: String }
pub fn run(dir: &std::path::Path, args: &[String], stdin: Option<Vec<u8>>, env: Option<&str>) -> Result<Out, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("chopx");
    let mut c = Command::new("timeout");
    c.arg("20").arg(exe).args(args).current_dir(dir).env_remove("CHOPPER_TZ").env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(z) = env { c.env("CHOPPER_TZ", z); }
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut p = er(c.spawn())?;
    let t = stdin.map(|d| { let mut i = p.stdin.take().unwrap(); std::thread::spawn(move || { let _ = i.write_all(&d); }) });
    let o = er(p.wait_with_output())?;
    if let Some(t) = t { let _ = t.join(); }
    Ok(Out { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() })
}
fn pipe() -> Result<(std::fs::File, std::fs::File), String> {
    use std::os::unix::io::FromRawFd;
    extern "C" { fn pipe2(f: *mut i32, flags: i32) -> i32; }
    let mut f = [0i32; 2];
    if unsafe { pipe2(f.as_mut_ptr(), 0o2000000) } != 0 { return Err("no pipe".into()); }
    Ok(unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) })
}
const MULT: [(&str, u64, usize, &str); 4] = [("s", 1_000_000_000, 0, "Seconds"), ("ms", 1_000_000, 3, "Millis"), ("us", 1000, 6, "Micros"), ("ns", 1, 9, "Nanos")];
fn text(v: &V) -> String { match v { V::S(s) => s.clone(), V::Int(i) => i.to_string(), V::Long(i) => i.to_string(), V::Short(i) => i.to_string(), V::Byte(i) => i.to_string(), _ => String::new() } }
pub fn cli(c: &mut Ctx) {
    let dir = c.scratch("cli");
    let _ = std::fs::create_dir_all(&dir);
    for q in 0..c.n(450) {
        let dc = c.rng.chance(2, 5);
        let n = c.rng.range(1, 4);
        let unit = *c.rng.pick(&MULT);
        let files = *c.rng.pick(&[1usize, 1, 2, 3]);
        let names: Vec<String> = (0..n).map(|i| if dc { format!("c{}", i) } else if i == n - 1 { "when".into() } else { format!("c{}", i) }).collect();
        let types: Vec<FieldType> = (0..n).map(|_| if dc { *c.rng.pick(&[FieldType::Int, FieldType::Long, FieldType::Byte, FieldType::Short, FieldType::String]) } else { FieldType::String }).collect();
        let mut used = std::collections::HashSet::new();
        let mut tables: Vec<Vec<R>> = vec![];
        for f in 0..files {
            let m = if !dc { c.rng.range(1, 12) } else { c.rng.below(12) };
            let mut ts: Vec<u64> = (0..m).map(|_| loop { let t = (1_546_300_800 + c.rng.below(100) as u64) * 1_000_000_000 / unit.1 * unit.1 + if unit.1 == 1 { c.rng.below(10) as u64 } else { 0 }; let t = t + c.rng.below(200) as u64 * unit.1.min(1_000_000_000); if used.insert((t, 0)) { break t } }).collect();
            ts.sort_unstable();
            tables.push(ts.iter().map(|t| (*t, (0..n).map(|i| if !dc && i == n - 1 { V::S((t / unit.1).to_string()) } else { match types[i] {
                FieldType::Int => if c.rng.chance(1, 5) { V::None } else { V::Int(c.rng.next() as i32) }, FieldType::Long => V::Long(c.rng.next() as i64), FieldType::Byte => V::Byte(c.rng.next() as u8), FieldType::Short => V::Short(c.rng.next() as i16),
                _ => V::S(format!("f{}{}", f, c.rng.below(1000))) } }).collect())).collect());
        }
        // the inputs as they lie there
        let bodies: Vec<Vec<u8>> = tables.iter().map(|t| if dc { ref_encode(&names, &types, t, b"u") } else { let mut s = names.join(",") + "\n"; for r in t { s += &r.1.iter().map(text).collect::<Vec<_>>().join(","); s.push('\n'); } s.into_bytes() }).collect();
        let (mut args, mut inputs): (Vec<String>, Vec<(PathBuf, Vec<u8>)>) = (vec![], vec![]);
        let stdin = files == 1 && c.rng.chance(1, 4);
        let (mut formats, mut given) = (vec![], vec![]);
        for (f, b) in bodies.iter().enumerate() {
            let z = if c.rng.chance(1, 3) { any_told(c, b) } else { Comp { bytes: b.clone(), ext: "", ends: vec![], checked: false, how: "".into(), bare: vec![] } };
            let ext = format!("{}{}", if dc { ".dc" } else { ".csv" }, z.ext);
            let (name, fmt) = match c.rng.below(3) { 0 => (format!("i{}{}", f, ext), "auto".to_string()), 1 => (format!("i{}", f), "auto".to_string()), _ => (format!("i{}.dc", f), ext.trim_start_matches(if c.rng.chance(1, 2) { "." } else { "" }).to_string()) };
            formats.push(fmt);
            given.push((name, z.bytes));
        }
        // one format for the last ones is enough
        while formats.len() > 1 && formats[formats.len() - 1] == formats[formats.len() - 2] { formats.pop(); }
        if formats.iter().any(|f| f != "auto") { args.push("-f".into()); args.push(formats.join(",")); } 
        let out = c.rng.below(4); // stdout, csv file, dc file, stdout
        if !dc { args.push("--csv-in-epoch".into()); args.push(unit.0.into()); if c.rng.chance(1, 2) { args.push("--csv-in-ts-col".into()); args.push(if c.rng.chance(1, 2) { "when".into() } else { (n - 1).to_string() }); } else if n > 1 { args.push("--csv-in-ts-col".into()); args.push("when".into()); } }
        let tz = *c.rng.pick(&ZONES);
        let by_env = c.rng.chance(1, 4);
        let human_style = c.rng.chance(1, 2);
        let g = *c.rng.pick(&MULT);
        let delim = c.rng.pick(&[",", ";", "\t", "||", "\\t", "\\", "\"", " "]).to_string();
        let mut print = true;
        let mut tname = if human_style { "time".to_string() } else { format!("timestamp{}", g.3) };
        let mut zone_given = human_style && out != 2;
        if !human_style { args.push(c.rng.pick(&["-E", "--epoch"]).to_string()); }
        if g.0 != "ns" || c.rng.chance(1, 2) { args.push("-g".into()); args.push(g.0.into()); }
        if delim != "," || c.rng.chance(1, 4) { args.push("--delimiter".into()); args.push(delim.clone()); }
        if c.rng.chance(1, 3) { print = c.rng.chance(1, 2); args.push("--print-time".into()); args.push(if print { c.rng.pick(&["yes", "Yes", "YES"]).to_string() } else { c.rng.pick(&["no", "NO"]).to_string() }); }
        if c.rng.chance(1, 5) { tname = "T".into(); args.push("--time-col-name".into()); args.push(tname.clone()); }
        let mut want: Vec<R> = tables.concat();
        want.sort_by_key(|r| r.0);
        let lo = want.get(0).map_or(1_546_300_800_000_000_000, |r| r.0);
        if c.rng.chance(1, 3) { let b = if c.rng.chance(1, 2) && !want.is_empty() { c.rng.pick(&want).0 } else { lo + c.rng.below(300) as u64 * 1_000_000_000 }; want.retain(|r| r.0 >= b); if c.rng.chance(1, 2) { args.push("-b".into()); args.push(b.to_string()); } else { zone_given = true; args.push("--begin".into()); args.push(human(b, 9, tz)[..29].replace("T", "-")); } }
        if c.rng.chance(1, 3) { let e = lo + c.rng.below(300) as u64 * 1_000_000_000; want.retain(|r| r.0 < e); args.push("-e".into()); args.push(e.to_string()); }
        if zone_given && !by_env { args.push("-z".into()); args.push(tz.name().into()); }
        let target = match out { 1 => { args.push("-o".into()); Some(*c.rng.pick(&["out.csv", "out.csv", "out.dc.csv", "d.dc/out.csv"])) } 2 => { args.push("--output".into()); Some(*c.rng.pick(&["out.dc", "out.dc", "out.csv.dc", "d.csv/out.dc"])) } _ => None };
        if let Some(t) = target { args.push(t.into()); }
        if !stdin { if args.iter().any(|a| a == "-f") { args.push("--".into()); } for (n, b) in given.iter() { args.push(n.clone()); inputs.push((dir.join(n), b.clone())); } }
        let shown: Vec<String> = given.iter().map(|x| format!("{}:{}", x.0, hex(&x.1))).collect();
        c.case("run", format!("#{} chopper {} {} inputs {:?} tables {:?}", q, args.join(" "), if stdin { "(stdin)" } else { "" }, shown, tables), || {
            for d in &["d.dc", "d.csv"] { let _ = std::fs::create_dir_all(dir.join(d)); }
            for f in &["out.csv", "out.dc", "out.csv.dc", "out.dc.csv", "d.dc/out.csv", "d.csv/out.dc"] { let _ = std::fs::remove_file(dir.join(f)); }
            // what was there before goes away
            if let (Some(t), true) = (target, q % 3 == 0) { er(std::fs::write(dir.join(t), vec![b'#'; if q % 2 == 0 { 70_000 } else { 7 }]))?; }
            for (p, b) in &inputs { er(std::fs::write(p, b))?; }
            let o = run(&dir, &args, if stdin { Some(given[0].1.clone()) } else { None }, if zone_given && by_env { Some(tz.name()) } else if zone_given { Some("Asia/Tokyo") } else { None });
            for (p, _) in &inputs { let _ = std::fs::remove_file(p); }
            let o = o?;
            if o.code != Some(0) { return Err(format!("exit status {:?}: {}", o.code, o.err)); }
            let got = match target { Some(t) => { if !o.out.is_empty() { return Err("output on stdout too".into()); } er(std::fs::read(dir.join(t)))? } None => o.out };
            if out == 2 { let (n2, t2, rows) = ref_parse_rows(&got)?; same("names", &n2, &names)?; same("types", &t2, &types)?; return same("rows", &rows, &want); }
            let mut s = String::new();
            if print { s += &tname; if n > 0 { s += &delim; } }
            s += &names.join(&delim); s.push('\n');
            for r in &want {
                let mut cells: Vec<String> = r.1.iter().map(text).collect();
                if print { cells.insert(0, if human_style { human(r.0, g.2, tz) } else { (r.0 / g.1).to_string() }); }
                s += &cells.join(&delim); s.push('\n');
            }
            same("output", &String::from_utf8_lossy(&got).into_owned(), &s)
        });
    }
    // how csv input is to be read
    for q in 0..c.n(150) {
        let zone = *c.rng.pick(&ZONES);
        let d = *c.rng.pick(&[",", ";", "\t", "|"]);
        let kind = c.rng.below(4);    // units, one column with a format, two columns by name, two by index
        let wide = kind < 2 && c.rng.chance(1, 6);
        let n = if wide { c.rng.range(258, 300) } else { c.rng.range(3, 6) };
        let head = c.rng.chance(1, 2);
        let names: Vec<String> = (0..n).map(|i| if head { if kind == 2 && c.rng.chance(1, 4) { format!("{}", n - 1 - i) } else { format!("h{}", i) } } else { format!("col_{}", i) }).collect();
        let names: Vec<String> = { let mut s = std::collections::HashSet::new(); names.iter().enumerate().map(|(i, x)| if s.insert(x.clone()) { x.clone() } else { format!("h{}", i) }).collect() };
        let tcol = if wide { c.rng.range(256, n - 1) } else { c.rng.below(n) };
        let tcol2 = if tcol == 0 { n - 1 } else { c.rng.below(tcol) };
        // date and time can be in one column
        let one = kind == 3 && c.rng.chance(1, 4);
        let tcol2 = if one { tcol } else { tcol2 };
        let unit = *c.rng.pick(&MULT);
        let (ask, _) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
        let mut args: Vec<String> = vec!["-E".into(), "--time-col-name".into(), "T".into(), "--csv-in-has-header".into(), c.rng.pick(if head { &["yes", "YES"] } else { &["no", "No"] }).to_string()];
        let put = |args: &mut Vec<String>, a: &str, b: &str| { args.push(a.into()); args.push(b.into()); };
        if d != "," || c.rng.chance(1, 2) { put(&mut args, "--csv-in-delimiter", if d == "\t" && ask { "\\t" } else { d }); }
        let col = |i: usize, by_name: bool| if by_name { names[i].clone() } else { i.to_string() };
        match kind {
            0 => { put(&mut args, "--csv-in-epoch", unit.0); put(&mut args, "--csv-in-ts-col", &col(tcol, ask)); }
            1 => { put(&mut args, "--csv-in-ts-fmt", "%d.%m.%Y %H:%M:%S%.f"); put(&mut args, "--csv-in-ts-col", &col(tcol, ask)); put(&mut args, "-z", zone.name()); }
            k => { put(&mut args, "--csv-in-ts-col-date", &col(tcol, k == 2)); put(&mut args, "--csv-in-ts-col-time", &col(tcol2, k == 2)); put(&mut args, "--csv-in-ts-fmt-date", if one { "%Y/%m/%d %H.%M.%S" } else { "%Y/%m/%d" }); put(&mut args, "--csv-in-ts-fmt-time", if one { "%Y/%m/%d %H.%M.%S" } else { "%H.%M.%S" }); put(&mut args, "-z", zone.name()); }
        }
        // two names that both look like numbers would be two indices
        if kind == 2 && names[tcol].parse::<usize>().is_ok() && names[tcol2].parse::<usize>().is_ok() { continue; }
        let m = c.rng.range(1, 6);
        let mut t = 1_560_000_000_000_000_000u64 + c.rng.below(1_000_000) as u64 * 1_000_000_000;
        let (mut file, mut want) = (String::new(), format!("T,{}\n", names.join(",")));
        if head { file += &(names.join(d) + "\n"); }
        for k in 0..m {
            t += c.rng.below(1_000_000) as u64 * 1_000_000_000;
            let mut cells: Vec<String> = (0..n).map(|i| format!("v{}.{}", k, i)).collect();
            let h = human(t, 0, zone);      // yyyy-mm-ddThh:mm:ss+off
            match kind {
                0 => cells[tcol] = (t / unit.1).to_string(),
                1 => cells[tcol] = format!("{}.{}.{} {}", &h[8..10], &h[5..7], &h[..4], &h[11..19]),
                _ if one => cells[tcol] = format!("{} {}", h[..10].replace("-", "/"), h[11..19].replace(":", ".")),
                _ => { cells[tcol] = h[..10].replace("-", "/"); cells[tcol2] = h[11..19].replace(":", "."); }
            }
            file += &(cells.join(d) + "\n");
            want += &format!("{},{}\n", t, cells.join(","));
        }
        args.push("in.csv".into());
        c.case("csv-options", format!("#{} chopper {:?} input {:?}", q, args, file), || {
            er(std::fs::write(dir.join("in.csv"), &file))?;
            let o = run(&dir, &args, None, None)?;
            if o.code != Some(0) { return Err(format!("exit status {:?}: {}", o.code, o.err)); }
            same("output", &String::from_utf8_lossy(&o.out).into_owned(), &want)
        });
    }
    // what has to fail
    let good = b"ts,a\n1,x\n2,y\n".to_vec();
    let e = |s: &str| s.split(' ').map(|x| x.to_string()).collect::<Vec<String>>();
    let files: Vec<(&str, Vec<u8>)> = vec![("g.csv", good.clone()), ("second.csv", b"a,ts\nx,1\ny,2\n".to_vec()), ("other.csv", b"ts,b\n1,x\n".to_vec()), ("t.csv", b"ts,a\n2019-07-01T00:00:00.000000000+00:00,x\n".to_vec()), ("late.csv", b"ts,a\n1,x\n2,y\nzz,z\n".to_vec()), ("g.dc", ref_encode(&["a".into()], &[FieldType::Int], &[(1, vec![V::Int(1)]), (2, vec![V::Int(1)])], b"")), ("cut.dc", { let b = ref_encode(&["a".into()], &[FieldType::Int], &[(1, vec![V::Int(1)]), (2, vec![V::Int(1)])], b""); b[..b.len() - 1].to_vec() }), ("cut.csv.gz", { let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::default()); w.write_all(&good).unwrap(); let b = w.finish().unwrap(); b[..b.len() - 3].to_vec() })];
    for (f, b) in &files { let _ = std::fs::write(dir.join(f), b); }
    for (a, ok) in &[("-E --csv-in-epoch ns g.csv", true), ("-E --csv-in-epoch ns nope.csv", false), ("-E --csv-in-epoch ns g.csv nope.csv", false), ("-E --csv-in-epoch ns g.csv other.csv", false), ("-E --csv-in-epoch ns g.csv g.dc", false), ("-E --csv-in-epoch ns late.csv", false), ("-E --csv-in-epoch ns g.csv late.csv", false), ("-E cut.dc", false), ("-E g.dc cut.dc", false), ("-E --csv-in-epoch ns cut.csv.gz", false), ("-E --csv-in-epoch ns g.csv -o out.txt", false), ("-E --csv-in-epoch ns g.csv -o no/such/dir/out.csv", false),
        ("--csv-in-epoch ns g.csv", false), ("-E --csv-in-ts-col nope g.csv", false), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col 0 g.csv", true), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col 1 second.csv", true), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col 01 second.csv", true), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col 0 second.csv", false), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col= g.csv", false), ("-E --csv-in-epoch ns --csv-in-has-header yes --csv-in-ts-col 00x g.csv", false), ("-E --csv-in-has-header yes t.csv", true), ("-E --csv-in-has-header yes --csv-in-ts-fmt plain t.csv", false), ("-E --csv-in-has-header yes --csv-in-ts-fmt 2019 t.csv", false), ("-E g.csv", false), ("-E -b tomorrow --csv-in-epoch ns g.csv", false), ("-E -b 2019 --csv-in-epoch ns g.csv", false), ("-E -f dc g.csv", false), ("-E -g h g.dc", false), ("-E --bogus g.dc", false), ("-E --csv-in-delimiter ab --csv-in-epoch ns g.csv", false), ("-E g.dc", true), ("-E -b 2019 -z UTC --csv-in-epoch ns g.csv", true)] {
        c.case("exit", format!("chopper {}", a), || { let o = run(&dir, &e(a), None, None)?; if (o.code == Some(0)) == *ok { Ok(()) } else { Err(format!("exit status {:?}, stdout {:?}, stderr {:?}", o.code, String::from_utf8_lossy(&o.out), o.err)) } });
    }
    // what only looks like the index of a column is a name, which no column has
    for x in &[" 0", "0 ", "\t0", "0.", "0x0", "-0", "0,0", "\u{660}", "ts ", " ts", "TS", "1_0", "#0"] { for k in 0..2 {
        let mut a = e("-E --csv-in-epoch ns --csv-in-has-header yes");
        if k == 0 { a.push(format!("--csv-in-ts-col={}", x)); } else { for o in &["date", "time"] { a.push(format!("--csv-in-ts-col-{}={}", o, x)); a.push(format!("--csv-in-ts-fmt-{}=%s", o)); } }
        a.push("g.csv".into());
        c.case("exit", format!("chopper {:?}", a), || { let o = run(&dir, &a, None, None)?; if o.code == Some(0) { Err(format!("exit status 0, stdout {:?}", String::from_utf8_lossy(&o.out))) } else { Ok(()) } });
    } }
    // the same with --backtrace
    for (a, ok) in &[("-E --backtrace --csv-in-epoch ns g.csv", true), ("-E --backtrace --csv-in-epoch ns nope.csv", false), ("-E --backtrace --csv-in-epoch ns late.csv", false), ("-E --backtrace cut.dc", false), ("-E --backtrace g.dc cut.dc", false), ("-E --backtrace --csv-in-epoch ns cut.csv.gz", false), ("-E --backtrace --csv-in-ts-col nope g.csv", false), ("-E --backtrace -b tomorrow g.dc", false)] {
        c.case("exit", format!("chopper {}", a), || { let o = run(&dir, &e(a), None, None)?; if (o.code == Some(0)) == *ok { Ok(()) } else { Err(format!("exit status {:?}, stdout {:?}, stderr {:?}", o.code, String::from_utf8_lossy(&o.out), o.err)) } });
    }
    // inputs of any name are files
    for nm in &["-", "- ", "a b.csv", "é.csv", "-x.csv", "--", "~", "$HOME", "*.csv", "http", "https.csv", "stdin", "%s.csv", ".csv", "a;b", "x.csv.", "auto"] {
        c.case("names", format!("an input of the name {:?}", nm), || {
            er(std::fs::write(dir.join(nm), &good))?;
            let mut a = e("-E -g ns --print-time no --csv-in-has-header yes --csv-in-epoch ns --");
            a.push(nm.to_string());
            let o = run(&dir, &a, Some(b"ts,a\n7,stdin\n".to_vec()), None);
            let _ = std::fs::remove_file(dir.join(nm));
            let o = o?;
            if o.code != Some(0) { return Err(format!("exit status {:?}: {}", o.code, o.err)); }
            same("output", &String::from_utf8_lossy(&o.out), &String::from_utf8_lossy(&good))
        });
    }
    // many inputs, each with its format, and some of them given again
    for n in &[2usize, 5, 9, 12, 40] { for mode in 0..4usize {
        c.case("formats", format!("{} inputs, {}", n, ["a format each", "one format for all", "formats for the first ones, the last one for the rest", "by their contents, the first one given three times"][mode]), || {
            let kinds: Vec<&str> = (0..*n).map(|k| if mode == 1 || k >= n / 2 && mode == 2 { "csv" } else { ["csv.gz", "csv"][(k * k / 3 + k / 7) % 2] }).collect();
            let mut a = e("-E -g ns --print-time no --csv-in-has-header yes --csv-in-epoch ns");
            let fs: Vec<&str> = match mode { 0 => kinds.clone(), 1 => vec!["csv"], 2 => kinds[..n / 2 + 1].to_vec(), _ => vec![] };
            if !fs.is_empty() { a.push("-f".into()); a.push(fs.join(",")); }
            a.push("--".into());
            let mut want = "ts,a\n".to_string();
            for k in 0..*n {
                let t = format!("ts,a\n{},f{}\n", 100 + k, k).into_bytes();
                let b = if kinds[k] == "csv" { t } else { let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::default()); er(w.write_all(&t))?; er(w.finish())? };
                let f = format!("m{}{}", k, if mode == 3 { "" } else { ["", ".dc", ".zst", ".csv", ".x", ".csv.gz", ".lz4"][(k * k + k / 3) % 7] });
                er(std::fs::write(dir.join(&f), b))?;
                for _ in 0..if mode == 3 && k == 0 { 3 } else { 1 } { a.push(f.clone()); want += &format!("{},f{}\n", 100 + k, k); }
            }
            let o = run(&dir, &a, None, None)?;
            if o.code != Some(0) { return Err(format!("exit status {:?}: {}", o.code, o.err)); }
            same("output", &String::from_utf8_lossy(&o.out).into_owned(), &want)
        });
    } }
    // the name of the output: csv, dc, or refused
    for (f, k) in &[("o.csv", 1), ("o.dc", 2), ("o.CSV", 0), ("o.DC", 0), ("o.Csv", 0), ("o.csv.gz", 0), ("o.txt", 0), ("o", 0), ("o.csv ", 0), ("o.dc.bak", 0), ("o.cs", 0), ("o.d", 0), ("outcsv", 1), ("csv", 1), ("odc", 2), ("o.xdc", 2), (".csv", 1), ("o.dc.csv", 1), ("o.csv.dc", 2)] {
        c.case("names", format!("an output of the name {:?}", f), || {
            let _ = std::fs::remove_file(dir.join(f));
            let mut a = e("-E -g ns --print-time no --csv-in-epoch ns --csv-in-has-header yes g.csv -o");
            a.push(f.to_string());
            let o = run(&dir, &a, None, None)?;
            let got = std::fs::read(dir.join(f)).unwrap_or_default();
            let _ = std::fs::remove_file(dir.join(f));
            match k {
                0 => if o.code == Some(0) { Err("exit status 0".into()) } else { Ok(()) },
                _ if o.code != Some(0) => Err(format!("exit status {:?}: {}", o.code, o.err)),
                1 => same("output", &got, &good),
                _ => { let (n, _, r) = ref_parse_rows(&got)?; same("names", &n, &vec!["ts".to_string(), "a".to_string()])?; same("rows", &r, &(1..3u64).map(|t| (t, vec![V::S(t.to_string()), V::S(["x", "y"][t as usize - 1].into())])).collect::<Vec<R>>()) }
            }
        });
    }
    // stdin has the first format, if there can be more
    for (f, ok) in &[("csv,dc", true), ("csv,csv.gz,dc", true), ("csv", true), ("auto,dc", true), ("dc,csv", false), ("csv.gz,csv", false)] {
        c.case("formats", format!("stdin with the formats {}", f), || {
            let o = run(&dir, &e(&format!("-E -g ns --print-time no --csv-in-epoch ns -f {}", f)), Some(good.clone()), None)?;
            if o.code != Some(0) { return if *ok && !f.contains(',') { Err(format!("exit status {:?}: {}", o.code, o.err)) } else { Ok(()) }; }
            if !ok { return Err(format!("exit status 0, output {:?}", String::from_utf8_lossy(&o.out))); }
            same("output", &String::from_utf8_lossy(&o.out), &String::from_utf8_lossy(&good))
        });
    }
    // many rows, many inputs, over csv and dc
    for n in &[300usize, 3000, 70_000] {
        c.case("many", format!("{} rows as csv, as dc and as csv again, whole and split over 30 files", n), || {
            let row = |i: usize| format!("{},r{}\n", 1000 + i / 2, i);
            let body: String = (0..*n).map(row).collect();
            let want = format!("ts,a\n{}", body).into_bytes();
            er(std::fs::write(dir.join("many.csv"), &want))?;
            let go = |a: &str| -> Result<Vec<u8>, String> { let o = run(&dir, &e(a), None, None)?; if o.code != Some(0) { return Err(format!("chopper {}: exit status {:?}, stderr {:?}", a, o.code, o.err)); } Ok(o.out) };
            let lines = |b: &[u8]| b.iter().filter(|x| **x == b'\n').count();
            go("-E --csv-in-epoch ns many.csv -o many.dc")?;
            go("many.dc -E -o again.csv")?;
            let got = er(std::fs::read(dir.join("again.csv")))?;
            same("lines over dc", &lines(&got), &(n + 1))?;
            for (i, l) in String::from_utf8_lossy(&got).lines().skip(1).enumerate() { if !l.ends_with(&format!("{}", row(i).trim_end())) { return Err(format!("line {}: {:?}", i, l)); } }
            let mut a = "-E --csv-in-epoch ns".to_string();
            for k in 0..30 { let f = format!("part{}.csv", k); er(std::fs::write(dir.join(&f), format!("ts,a\n{}", (0..*n).filter(|i| (i / 2) % 30 == k).map(row).collect::<String>())))?; a += " "; a += &f; }
            let got = go(&a)?;
            same("lines of the parts", &lines(&got), &(n + 1))?;
            for (i, l) in String::from_utf8_lossy(&got).lines().skip(1).enumerate() { if !l.ends_with(&format!("{}", row(i).trim_end())) { return Err(format!("line {} of the parts: {:?}", i, l)); } }
            Ok(())
        });
    }
    // output that cannot be written
    #[cfg(unix)]
    if std::path::Path::new("/dev/full").exists() {
        for ext in &["csv", "dc"] { let f = dir.join(format!("full.{}", ext)); let _ = std::fs::remove_file(&f); let _ = std::os::unix::fs::symlink("/dev/full", &f); }
        for a in &["-E --csv-in-epoch ns g.csv -o full.csv", "-E --csv-in-epoch ns g.csv -o full.dc", "-E g.dc -o full.csv", "g.dc -o full.dc", "many.dc -o full.dc", "-E many.dc -o full.csv"] {
            c.case("exit", format!("chopper {} with the output full", a), || { let o = run(&dir, &e(a), None, None)?; if o.code == Some(0) { Err("exit status 0".into()) } else { Ok(()) } });
        }
    }
    // a reader of the output that has gone
    for a in &["-E --csv-in-epoch ns g.csv", "-E g.dc", "-E many.dc"] { for n in &[0usize, 1, 100] {
        c.case("exit", format!("chopper {} into a pipe that is closed after {} bytes", a, n), || {
            let exe = std::env::current_exe().unwrap().with_file_name("chopx");
            let whole = run(&dir, &e(a), None, None)?.out.len();
            if whole < 300_000 && *n > 0 { return Ok(()); }
            let (r, w) = pipe()?;
            let mut r = r;
            if *n == 0 { drop(r); let s = er(Command::new(&exe).args(e(a)).current_dir(&dir).stdin(Stdio::null()).stdout(w).stderr(Stdio::null()).status())?; return if s.code() == Some(0) { Err("exit status 0".into()) } else { Ok(()) }; }
            let mut p = er(Command::new(&exe).args(e(a)).current_dir(&dir).stdin(Stdio::null()).stdout(w).stderr(Stdio::null()).spawn())?;
            let mut b = vec![0; *n];
            er(std::io::Read::read_exact(&mut r, &mut b))?;
            drop(r);
            if er(p.wait())?.code() == Some(0) { Err("exit status 0".into()) } else { Ok(()) }
        });
    } }
    if std::path::Path::new("/dev/full").exists() {
        for a in &["-E --csv-in-epoch ns g.csv", "-E g.dc"] {
            c.case("exit", format!("chopper {} with stdout full", a), || {
                let exe = std::env::current_exe().unwrap().with_file_name("chopx");
                let f = er(std::fs::OpenOptions::new().write(true).open("/dev/full"))?;
                let s = er(Command::new(exe).args(e(a)).current_dir(&dir).stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).status())?;
                if s.code() == Some(0) { Err("exit status 0".into()) } else { Ok(()) }
            });
        }
    }
}
