// csv-sink, csv-source, csv-guess
use crate::common::*;
use chopper::chopper::chopper::{HeaderSink, Source};
use chopper::chopper::types::{FieldType, Header};
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{CSVInputConfig, CSVOutputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig, TimestampStyle};
use chopper::source::csv_source::CSVSource;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::csv_util;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;
use chopper::write::csv_sink::CSVSink;
use chrono::{Offset, TimeZone};
use chrono_tz::Tz;
use std::io::Read;

pub const UNITS: [(TimestampUnits, u64, &str, usize); 4] = [(TimestampUnits::Seconds, 1_000_000_000, "Seconds", 0), (TimestampUnits::Millis, 1_000_000, "Millis", 3), (TimestampUnits::Micros, 1_000, "Micros", 6), (TimestampUnits::Nanos, 1, "Nanos", 9)];
/// days since 1970-01-01 -> year, month, day
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, doy - (153 * mp + 2) / 5 + 1)
}
/// year, month, day -> days since 1970-01-01
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
/// the offset of the zone at this instant, in seconds
pub fn offset_at(tz: Tz, secs: i64) -> i64 { tz.offset_from_utc_datetime(&chrono::NaiveDateTime::from_timestamp(secs, 0)).fix().local_minus_utc() as i64 }
pub fn human(ts: u64, frac: usize, tz: Tz) -> String {
    let (s, n) = ((ts / 1_000_000_000) as i64, ts % 1_000_000_000);
    let off = offset_at(tz, s);
    let l = s + off;
    let (y, m, d) = civil(l.div_euclid(86400));
    let t = l.rem_euclid(86400);
    let f = if frac == 0 { String::new() } else { format!(".{}", &format!("{:09}", n)[..frac]) };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}{:02}:{:02}", y, m, d, t / 3600, t / 60 % 60, t % 60, f, if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60)
}
pub const ZONES: [Tz; 7] = [chrono_tz::Tz::UTC, chrono_tz::America::New_York, chrono_tz::Asia::Kolkata, chrono_tz::Australia::Lord_Howe, chrono_tz::America::St_Johns, chrono_tz::Pacific::Kiritimati, chrono_tz::America::Sao_Paulo];

fn gen_text(c: &mut Ctx, plain: bool) -> String {
    let alpha: Vec<char> = if plain { "abcXYZ019_.-:/+é漢".chars().collect() } else { "abcXY 019,;\"'\n\r\t|é漢\u{1F600}\0".chars().collect() };
    let n = *c.rng.pick(&[0usize, 1, 1, 2, 3, 5, 9]);
    (0..n).map(|_| *c.rng.pick(&alpha)).collect()
}
fn gen_out_val(c: &mut Ctx) -> V {
    let x = if c.rng.chance(1, 3) { *c.rng.pick(&[0u64, 1, 127, 128, 255, 32767, 32768, 65535, 1 << 31, u64::MAX, 1 << 63, 9_007_199_254_740_993]) } else { c.rng.next() };
    match c.rng.below(9) {
        0 => V::Byte(x as u8), 1 => V::Char(x as u16), 2 => V::Short(x as i16), 3 => V::Int(x as i32), 4 => V::Long(x as i64),
        5 => { let d = match c.rng.below(4) { 0 => f64::from_bits(x), 1 => (x as i64 as f64) / 1000.0, 2 => (x % 100000) as f64 / 8.0, _ => *c.rng.pick(&[0.0, -0.0, 1.0, 0.1, 1e21, 1e-7, 5e-324, f64::MAX, 123456789.125, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 4e18, -9e18, 1e19, 9_007_199_254_740_993.0]) }; V::D(d.to_bits()) }
        6 => { let d = match c.rng.below(3) { 0 => f32::from_bits(x as u32), 1 => (x % 100000) as f32 / 8.0, _ => *c.rng.pick(&[0.0f32, 0.1, 16777216.0, f32::MAX, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e18]) }; V::F(d.to_bits()) }
        7 => V::None,
        _ => V::S(gen_text(c, false)),
    }
}
// does the text at the start of s stand for v?  gives the rest
fn eat<'a>(s: &'a str, v: &V, stop: &str) -> Result<&'a str, String> {
    let lit = |t: String| if s.starts_with(&t) { Ok(&s[t.len()..]) } else { let mut r = s.to_string(); cut(&mut r, 80); Err(format!("expected {:?}, found {:?}", t, r)) };
    match v {
        V::Byte(x) => lit(x.to_string()), V::Char(x) => lit(x.to_string()), V::Short(x) => lit(x.to_string()), V::Int(x) => lit(x.to_string()), V::Long(x) => lit(x.to_string()),
        V::S(x) => lit(x.clone()), V::None => Ok(s),
        V::D(_) | V::F(_) => {
            let n = s.find(|ch: char| !(ch.is_ascii_digit() || "+-.eEinfNa".contains(ch))).unwrap_or(s.len());
            // the delimiter may be one of those characters: take the longest text that fits
            let ok = |t: &str| match v { V::D(b) => t.parse::<f64>().map_or(false, |y| y.to_bits() == *b || y.is_nan() && f64::from_bits(*b).is_nan()), V::F(b) => t.parse::<f32>().map_or(false, |y| y.to_bits() == *b || y.is_nan() && f32::from_bits(*b).is_nan()), _ => false };
            for k in (1..=n).rev() { if s.is_char_boundary(k) && ok(&s[..k]) && (s[k..].starts_with(stop) || s[k..].starts_with('\n')) { return Ok(&s[k..]); } }
            Err(format!("{:?} does not stand for the number {:?}", &s[..n], v))
        }
        _ => Err("?".into()),
    }
}
pub fn sink(c: &mut Ctx) {
    let path = c.scratch("o.csv");
    let p = Some(path.to_str().unwrap().to_string());
    for _ in 0..c.n(4000) {
        // some are wide, some long, some with long texts
        let big = c.rng.below(300);
        let n = if big == 0 { c.rng.range(200, 600) } else if big == 2 { c.rng.range(1, 4) } else { c.rng.below(7) };
        let names: Vec<String> = (0..n).map(|_| gen_text(c, true)).collect();
        let rows: Vec<R> = (0..if big == 1 { c.rng.range(257, 1500) } else { c.rng.below(6) }).map(|_| {
            let t = match c.rng.below(4) { 0 => *c.rng.pick(&[0u64, 1, 999, 1000, 999_999, 999_999_999, 1_000_000_000, u64::MAX, 951_782_400_000_000_000, 1_583_020_799_999_999_999]), 1 => c.rng.next(), _ => c.rng.next() % 4_000_000_000_000_000_000 };
            (t, (0..n).map(|_| if big == 2 && c.rng.chance(1, 2) { let n = *c.rng.pick(&[255usize, 256, 1023, 1024, 4096, 8190, 8191, 8192, 8193, 16385, 65536, 70_000]); V::S(c.rng.pick(&["y", "é", "漢"]).repeat(n)) } else { gen_out_val(c) }).collect())
        }).collect();
        let (unit, mult, uname, frac) = *c.rng.pick(&UNITS);
        let delim = c.rng.pick(&[",", ",", "\t", ";", "::", "|", " ", "é", "", "\"", "\n", ", ", "\0"]).to_string();
        // where one text follows another directly, only the exact ones can be told apart
        let rows: Vec<R> = if !delim.is_empty() { rows } else { rows.into_iter().map(|(t, vs)| (t, vs.into_iter().map(|v| match v { V::D(x) => V::Long(x as i64), V::F(x) => V::Int(x as i32), v => v }).collect())).collect() };
        let print = c.rng.chance(3, 4);
        let style_human = c.rng.chance(1, 2);
        let tz = *c.rng.pick(&ZONES);
        let tname = if c.rng.chance(1, 3) { Some(c.rng.pick(&["when", "when", "", " ", "time", "a,b", "timestampNanos"]).to_string()) } else { None };
        let desc = format!("names={:?} delimiter={:?} time_col={} name={:?} human={} units={} tz={} rows={}", names, delim, print, tname, style_human, uname, tz, { let mut t = format!("{:?}", rows); cut(&mut t, 3000); t });
        c.case("csv", desc, || {
            let cfg = CSVOutputConfig::new(&delim, print, tname.clone(), if style_human { TimestampStyle::HumanReadable } else { TimestampStyle::Epoch }, unit, ChopperTz::from(tz));
            let s: Box<dyn HeaderSink> = Box::new(show_err(CSVSink::new(&p, cfg))?);
            let mut h = Header::new(names.clone(), vec![FieldType::String; n]);
            let mut d = show_err(s.process_header(&mut h))?;
            for r in &rows { let mut v = vec![row_of(r)]; show_err(d.write_row(&mut v))?; if v.len() != 1 || r_of(&v[0]) != *r { return Err("the sink changed the rows it was given".into()); } }
            show_err(d.flush())?;
            let text = er(String::from_utf8(er(std::fs::read(&path))?))?;
            let mut cells: Vec<String> = names.clone();
            if print { cells.insert(0, tname.unwrap_or(if style_human { "time".to_string() } else { format!("timestamp{}", uname) })); }
            let hd = cells.join(&delim) + "\n";
            if !text.starts_with(&hd) { return Err(format!("header line: expected {:?} in {:?}", hd, &text[..text.find('\n').map_or(text.len(), |k| k + 1)])); }
            let mut rest = &text[hd.len()..];
            for r in &rows {
                let mut vals = vec![];
                if print { vals.push(V::S(if style_human { human(r.0, frac, tz) } else { (r.0 / mult).to_string() })); }
                vals.extend_from_slice(&r.1);
                for (i, v) in vals.iter().enumerate() {
                    if i > 0 { if !rest.starts_with(&delim) { return Err(format!("no delimiter before column {} of {:?}", i, r)); } rest = &rest[delim.len()..]; }
                    rest = eat(rest, v, &delim).map_err(|e| format!("column {} of {:?}: {}", i, r, e))?;
                }
                if !rest.starts_with('\n') { return Err(format!("no line end after {:?}", r)); }
                rest = &rest[1..];
            }
            if !rest.is_empty() { return Err(format!("more text at the end: {:?}", rest)); }
            Ok(())
        });
    }
    // a sink whose output cannot take the text says so, at the latest when it is flushed
    if std::path::Path::new("/dev/full").exists() {
        for n in &[0usize, 1, 3000] {
            c.case("csv", format!("{} rows into an output that is full", n), || {
                let go = || -> Result<(), String> {
                    let s: Box<dyn HeaderSink> = Box::new(show_err(CSVSink::new(&Some("/dev/full".to_string()), CSVOutputConfig::new(",", true, None, TimestampStyle::Epoch, TimestampUnits::Nanos, ChopperTz::new_always_fails())))?);
                    let mut d = show_err(s.process_header(&mut header(&["a"], FieldType::Long)))?;
                    for i in 0..*n { show_err(d.write_row(&mut vec![row_of(&(i as u64, vec![V::Long(i as i64)]))]))?; }
                    show_err(d.flush())
                };
                if go().is_ok() { Err("written without an error".into()) } else { Ok(()) }
            });
        }
    }
    for errno in ERRNOS.iter() { for after in [0usize, 1, 9, 8192, 20_000].iter() { for once in [false, true].iter() {
        let n = if *after < 8192 { 2 } else { 4000 };
        c.case("csv", format!("{} rows into an output that fails after {} bytes with errno {} once={}", n, after, errno, once), || {
            let go = || -> Result<(), String> {
                let s: Box<dyn HeaderSink> = Box::new(show_err(CSVSink::new(&p, CSVOutputConfig::new(",", true, None, TimestampStyle::Epoch, TimestampUnits::Nanos, ChopperTz::new_always_fails())))?);
                let mut d = show_err(s.process_header(&mut header(&["a"], FieldType::Long)))?;
                for i in 0..n { show_err(d.write_row(&mut vec![row_of(&(i as u64, vec![V::Long(i as i64)]))]))?; }
                show_err(d.flush())
            };
            if with_failing_writes(Fails { after: *after, errno: *errno, once: *once }, go).is_ok() { Err("written without an error".into()) } else { Ok(()) }
        });
    } } }
    for v in vec![V::Bool(true), V::Buf(vec![1])] {
        c.case("csv", format!("unsupported {:?}", v), || {
            let s: Box<dyn HeaderSink> = Box::new(show_err(CSVSink::new(&p, CSVOutputConfig::new_default()))?);
            let mut d = show_err(s.process_header(&mut header(&["a"], FieldType::Long)))?;
            if d.write_row(&mut vec![row_of(&(1, vec![v]))]).is_ok() { return Err("a value csv output has no text for was written without an error".into()); }
            Ok(())
        });
    }
    c.case("csv", "human readable time without a timezone".into(), || {
        let cfg = CSVOutputConfig::new(",", true, None, TimestampStyle::HumanReadable, TimestampUnits::Nanos, ChopperTz::new_always_fails());
        let s: Box<dyn HeaderSink> = Box::new(show_err(CSVSink::new(&p, cfg))?);
        let mut d = show_err(s.process_header(&mut header(&["a"], FieldType::Long)))?;
        if d.write_row(&mut vec![row_of(&(1, vec![V::Long(1)]))]).is_ok() { return Err("written without an error".into()); }
        Ok(())
    });
}

pub fn previewer(data: Vec<u8>, sizes: Vec<usize>) -> Result<ChopperBufPreviewer<Box<dyn Read>>, String> { er(ChopperBufPreviewer::new(Box::new(Chunked::new(data, sizes)) as Box<dyn Read>)) }
/// one csv line of these cells (quoted where it has to be, or by choice)
pub fn csv_line(c: &mut Ctx, cells: &[String], d: u8, eol: &str) -> String {
    let v: Vec<String> = cells.iter().map(|x| {
        let must = x.contains(d as char) || x.contains('"') || x.contains('\n') || x.contains('\r');
        let y = if must || c.rng.chance(1, 8) { format!("\"{}\"", x.replace('"', "\"\"")) } else { x.clone() };
        if d != b' ' && !y.starts_with('"') && c.rng.chance(1, 6) { format!(" {}  ", y) } else { y }
    }).collect();
    v.join(&(d as char).to_string()) + eol
}
fn cell(c: &mut Ctx) -> String {
    let mut s = gen_text(c, false);
    s = s.trim().to_string();
    // what other dialects of csv treat in another way
    if c.rng.chance(1, 10) { s = format!("{}{}", *c.rng.pick(&["#", "//", ";", "\\", "%", "'", "--", "=", "!", "\""]), s); }
    if c.rng.chance(1, 10) { s = format!("{}{}", s, *c.rng.pick(&["\\", "#", "'", "\"", "\\\"", "\\n", "\0", "\u{1a}"])); }
    if c.rng.chance(1, 60) { s = "w".repeat(*c.rng.pick(&[4000usize, 8191, 8192, 9000, 40_000, 70_000])); }
    s
}
pub fn source(c: &mut Ctx) {
    for q in 0..c.n(4000) {
        let d = *c.rng.pick(&[b',', b',', b'\t', b';', b'|', b' ']);
        // some are wide, some are long
        let big = c.rng.below(300);
        let n = if big == 0 { c.rng.range(200, 600) } else { c.rng.range(1, 6) };
        let tcol = c.rng.below(n);
        let (unit, mult, uname, _) = *c.rng.pick(&UNITS);
        let has_header = c.rng.chance(2, 3);
        let eol = *c.rng.pick(&["\n", "\n", "\r\n"]);
        let names: Vec<String> = (0..n).map(|i| if i == tcol { "ts".to_string() } else { format!("n{}{}", i, gen_text(c, true)) }).collect();
        let m = if big == 1 { c.rng.range(257, 4000) } else { *c.rng.pick(&[0usize, 1, 2, 3, 10, 60]) };
        let mut text = if has_header { csv_line(c, &names, d, eol) } else { String::new() };
        let mut rows: Vec<R> = vec![];
        let mut bad = false;
        let mut width = if has_header { n } else { 0 };
        for i in 0..m {
            let mut ts = if c.rng.chance(1, 8) { u64::MAX / mult } else { c.rng.next() % (4_000_000_000_000_000_000 / mult) };
            let mut cells: Vec<String> = (0..n).map(|k| if k == tcol { ts.to_string() } else { cell(c) }).collect();
            // marks without a width belong to the text
            if i > 0 && n > 1 && c.rng.chance(1, 40) { cells[(tcol + 1) % n] = c.rng.pick(&["\u{feff}x", "x\u{feff}", "\u{feff}", "\u{200b}y\u{200b}", "a\u{0}", "\u{0}"]).to_string(); }
            let kind = if q % 4 == 0 { c.rng.below(14) } else { 99 };
            let mut fails = false;
            if kind == 0 && tcol + 1 < n { cells.truncate(c.rng.range(tcol + 1, n - 1)); }                  // short, but has its timestamp
            if kind == 1 && tcol > 0 { cells.truncate(c.rng.range(1, tcol)); fails = true; }                 // short of its timestamp
            if kind == 2 && i > 0 { for _ in 0..c.rng.range(1, 2) { cells.push(c.rng.pick(if d == b' ' { &["extra"] } else { &["extra", "", " "] }).to_string()); } fails = true; }                                 // too long
            if kind == 3 { cells[tcol] = c.rng.pick(&["", "x", "1.5", "-1", "18446744073709551616"]).to_string(); fails = true; }
            if kind == 4 && mult > 1 { ts = u64::MAX / mult + 1; cells[tcol] = ts.to_string(); fails = true; }  // does not fit into nanoseconds
            if kind == 6 && n > 1 && d != b' ' { for x in cells.iter_mut() { x.clear(); } fails = true; }                  // nothing in it, but separators
            if kind == 5 && n > 1 { cells[(tcol + 1) % n] = "b\u{1}d".into(); fails = true; }                      // becomes a byte that is no text
            if i == 0 && !has_header && kind == 0 { cells = (0..n).map(|k| if k == tcol { ts.to_string() } else { "p".to_string() }).collect(); }
            // a line that is only blank is no record
            if cells.len() == 1 && cells[0].is_empty() { cells[0] = "x".into(); }
            text.push_str(&csv_line(c, &cells, d, eol));
            if i == 0 { width = width.max(cells.len()); }
            if !bad && !fails { rows.push((ts.wrapping_mul(mult), (0..n).map(|k| cells.get(k).map_or(V::None, |x| V::S(x.clone()))).collect())); }
            bad |= fails;
        }
        if c.rng.chance(1, 4) && text.ends_with('\n') && m > 0 && !text.ends_with("\"\n") { text.truncate(text.len() - eol.len()); }
        let sizes: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.range(1, 5000)).collect();
        let want_names: Vec<String> = if has_header { names } else { (0..width).map(|i| format!("col_{}", i)).collect() };
        let desc = format!("delimiter={:?} header={} time column={} units={} chunks={:?} text={:?}", d as char, has_header, tcol, uname, sizes, { let mut t = text.clone(); cut(&mut t, 1500); t });
        let named = has_header && c.rng.chance(1, 2);
        let bytes: Vec<u8> = text.into_bytes().into_iter().map(|b| if b == 1 { 0xff } else { b }).collect();
        // the input can also fail where its data ends
        let broken = q % 4 == 1 && c.rng.chance(1, 6);
        let hiccup = if broken && c.rng.chance(1, 2) { Some((c.rng.below(bytes.len() + 1), *c.rng.pick(&KINDS))) } else { None };
        let desc = if broken { format!("read failure {}; {}", hiccup.map_or("after the text".to_string(), |h| format!("{:?} once after {} bytes", h.1, h.0)), desc) } else { desc };
        c.case("csv", desc, || {
            let tc = TimestampConfig::new(if named { TimestampColConfig::Name("ts".into()) } else { TimestampColConfig::Index(tcol) }, TimestampFmtConfig::Epoch(unit), ChopperTz::new_always_fails());
            let dl = (d as char).to_string();
            let cfg = show_err(CSVInputConfig::new(Some(if d == b'\t' { "\\t" } else { &dl }), if has_header { YesNoAuto::Yes } else { YesNoAuto::No }, tc))?;
            let mut data = Chunked::new(bytes, sizes);
            data.hiccup = hiccup;
            if broken && hiccup.is_none() { data.fail = Some(std::io::ErrorKind::ConnectionReset); }
            let p = match ChopperBufPreviewer::new(Box::new(data) as Box<dyn Read>) { Ok(p) => p, Err(e) => return if broken { Ok(()) } else { Err(format!("preview: {}", e)) } };
            let s = CSVSource::new(p, &cfg);
            let s = match s { Ok(s) => s, Err(e) => return if bad && rows.is_empty() || broken { Ok(()) } else { Err(format!("unexpected error: {}", e)) } };
            let mut s: Box<dyn Source> = Box::new(s);
            if !(m == 0 && !has_header) { same("names", s.header().field_names(), &want_names)?; }
            same("types", s.header().field_types(), &vec![FieldType::String; s.header().field_names().len()])?;
            let (got, e) = drain(&mut s);
            if broken {
                if e.is_none() { return Err(format!("the read failure was taken for the end; rows {:?}", got)); }
                if got.len() > rows.len() || got[..] != rows[..got.len()] { return Err(format!("rows before the failure: got {:?} expected {:?}", got, rows)); }
                return Ok(());
            }
            if bad {
                if e.is_none() { return Err(format!("a bad row was taken without an error; rows {:?}", got)); }
                // the row before the bad one may be lost with the error
                let k = rows.len();
                if got.len() > k || got.len() + 1 < k || got[..] != rows[..got.len()] { return Err(format!("rows before the bad one: got {:?} expected {:?}", got, rows)); }
                return Ok(());
            }
            same("end", &e, &None)?;
            same("rows", &got, &rows)
        });
    }
    // a first row that is wider than the header, and without a header at all
    for n in 0..6usize { for m in 1..9usize { for rest in 0..4usize {
        if m < n { continue; }
        // names that columns without a name get as well
        let (taken, rest) = (rest == 3, rest % 3);
        let name = |i: usize| if taken { format!("col_{}", i + 1) } else { format!("n{}", i) };
        c.case("csv", format!("a header of {} columns ({} ..), a first row of {}, a second one of {}", n, name(0), m, m.saturating_sub(rest)), || {
            let mut t = String::new();
            if n > 0 { t += &(0..n).map(&name).collect::<Vec<_>>().join(","); t.push('\n'); }
            let line = |k: usize, x: usize| (0..k).map(|i| (10 * x + i).to_string()).collect::<Vec<_>>().join(",") + "\n";
            let k = m.saturating_sub(rest).max(1);
            t += &line(m, 5); t += &line(k, 7);
            let tc = TimestampConfig::new(TimestampColConfig::Index(0), TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails());
            let cfg = show_err(CSVInputConfig::new(Some(","), if n > 0 { YesNoAuto::Yes } else { YesNoAuto::No }, tc))?;
            let mut s: Box<dyn Source> = Box::new(show_err(CSVSource::new(previewer(t.into_bytes(), vec![])?, &cfg))?);
            same("names", s.header().field_names(), &(0..m).map(|i| if i < n { name(i) } else { format!("col_{}", i) }).collect())?;
            same("types", s.header().field_types(), &vec![FieldType::String; m])?;
            let row = |k: usize, x: usize| (10 * x as u64, (0..m).map(|i| if i < k { V::S((10 * x + i).to_string()) } else { V::None }).collect::<Vec<_>>());
            same("rows", &drain(&mut s), &(vec![row(m, 5), row(k, 7)], None))
        });
    } } }
    // no input at all, only blank lines, only a header
    for (i, t) in ["", "\n", "\n\n", "\r\n", "a,ts\n", "a,ts"].iter().enumerate() {
        c.case("csv", format!("without rows {:?}", t), || {
            let tc = TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails());
            let cfg = show_err(CSVInputConfig::new(None, YesNoAuto::Yes, tc))?;
            let mut s: Box<dyn Source> = Box::new(show_err(CSVSource::new(previewer(t.as_bytes().to_vec(), vec![])?, &cfg))?);
            same("columns", &s.header().field_names().len(), &if i >= 4 { 2 } else { 0 })?;
            if i >= 4 { same("names", s.header().field_names(), &vec!["a".to_string(), "ts".to_string()])?; }
            same("rows", &drain(&mut s), &(vec![], None))
        });
    }
}

// ---- guesses
fn ref_type(s: &str) -> FieldType {
    let b = s.as_bytes();
    let digits = |x: &[u8]| !x.is_empty() && x.iter().all(|y| y.is_ascii_digit());
    let body = if !b.is_empty() && (b[0] == b'-' || b[0] == b'+') { &b[1..] } else { b };
    if digits(body) {
        let z: Vec<u8> = { let k = body.iter().position(|x| *x != b'0').unwrap_or(body.len()); body[k..].to_vec() };
        let max: &[u8] = if b[0] == b'-' { b"9223372036854775808" } else { b"9223372036854775807" };
        if z.len() < max.len() || z.len() == max.len() && &z[..] <= max { return FieldType::Long; }
        return FieldType::Double;
    }
    if s.parse::<f64>().is_ok() { FieldType::Double } else { FieldType::String }
}
pub fn guess(c: &mut Ctx) {
    let cands: &[u8] = b",\t ";
    let want = |row: &str, cs: &[u8]| { let cnt = |d: u8| row.as_bytes().iter().filter(|x| **x == d).count(); let best = cs.iter().map(|d| cnt(*d)).max().unwrap(); *cs.iter().find(|d| cnt(**d) == best).unwrap() };
    // every line of up to 7 characters of these
    let alpha = ['a', ',', '\t', ' '];
    let len = if c.thorough { 9 } else { 7 };
    for n in 0..=len { for code in 0..4usize.pow(n) {
        let mut k = code;
        let s: String = (0..n).map(|_| { let ch = alpha[k % 4]; k /= 4; ch }).collect();
        c.case("delimiter", format!("{:?}", s), || same("delimiter", &csv_util::guess_delimiter(&s, cands), &want(&s, cands)));
    } }
    for _ in 0..c.n(3000) {
        let n = if c.rng.chance(1, 15) { c.rng.range(300, 2500) } else { c.rng.below(40) };
        let s: String = (0..n).map(|_| match c.rng.below(5) { 0 => ',', 1 => '\t', 2 => ' ', 3 => *c.rng.pick(&['\u{12c}', '\u{22c}', '\u{2c2c}', '\u{109}', '\u{120}', 'é', '漢', '\u{ac}']), _ => 'x' }).collect();
        let cs: Vec<u8> = match c.rng.below(3) { 0 => cands.to_vec(), 1 => vec![*c.rng.pick(b",; \t|")], _ => { let mut v = b",;x|\t ".to_vec(); let r = c.rng.below(6); v.rotate_left(r); v.truncate(c.rng.range(1, 6)); v } };
        c.case("delimiter", format!("{:?} from {:?}", s, cs), || same("delimiter", &csv_util::guess_delimiter(&s, &cs), &want(&s, &cs)));
    }
    let cell_pool = ["", "a", "1", "-1", "+5", "1.5", "1e3", ".", "-", "+", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", " 12 ", " x", "0x1", "1_0", "é", "00012", "1.", ".5", "2019-01-01", "--1", "1 2", "\"1\"", "\"", "\"x\"", "'1'", "\t1", "1\t", "\u{a0}1", "1\r", "\u{b}2", "(1)", "$1", "1%", "inf", "NaN", "-inf", "1f", "1_000", "1e400", "TRUE", "٣"];
    for s in cell_pool.iter() { c.case("type", format!("{:?}", s), || same("type", &csv_util::guess_type(s), &ref_type(s))); }
    for _ in 0..c.n(2000) {
        let n = c.rng.below(24);
        let s: String = (0..n).map(|_| *c.rng.pick(&['0', '1', '9', '9', '2', '3', '-', '.', 'e'])).collect();
        c.case("type", format!("{:?}", s), || same("type", &csv_util::guess_type(&s), &ref_type(&s)));
    }
    for _ in 0..c.n(6000) {
        let d = *c.rng.pick(&[b',', b'\t', b' ', b';']);
        let mut line = |c: &mut Ctx| { let k = c.rng.range(1, 4); let v: Vec<String> = (0..k).map(|_| { let x = c.rng.pick(&cell_pool).to_string(); x.replace(d as char, "") }).collect(); v };
        let a = line(c);
        let b = if c.rng.chance(1, 2) { a.iter().map(|x| if c.rng.chance(1, 3) { c.rng.pick(&cell_pool).replace(' ', "").replace(d as char, "") } else { x.clone() }).collect() } else { line(c) };
        let (la, lb) = (if c.rng.chance(1, 20) { None } else { Some(a.join(&(d as char).to_string())) }, if c.rng.chance(1, 20) { None } else { Some(b.join(&(d as char).to_string())) });
        let ty = |v: &[String]| v.iter().map(|x| ref_type(x.trim())).collect::<Vec<_>>();
        let w = la.is_some() && lb.is_some() && ty(&a) != ty(&b);
        c.case("header", format!("{:?} then {:?}", la, lb), || same("header", &csv_util::guess_has_header(la.as_ref(), lb.as_ref(), d), &w));
    }
    {
    use chopper::chopper::types::FieldType::{Boolean, Byte, ByteBuf, Char, Double, Float, Int, Long, Short, String as Str};
    let all = [Boolean, Byte, ByteBuf, Char, Double, Float, Int, Long, Short, Str];
    let up = |t: FieldType| match t { Boolean | ByteBuf | Str => 2, Float | Double => 1, _ => 0 };
    let common = |v: &[FieldType]| match v.iter().map(|t| up(*t)).max() { None | Some(2) => Str, Some(1) => Double, _ => Long };
    for n in 0..=3u32 { for code in 0..10usize.pow(n) {
        let v: Vec<FieldType> = (0..n).map(|i| all[code / 10usize.pow(i) % 10]).collect();
        c.case("common", format!("{:?}", v), || same("common type", &csv_util::guess_common_type(&v), &common(&v)));
    } }
    for _ in 0..c.n(500) {
        let v: Vec<FieldType> = (0..c.rng.range(4, 30)).map(|_| if c.rng.chance(9, 10) { *c.rng.pick(&[Long, Int, Double]) } else { *c.rng.pick(&all) }).collect();
        c.case("common", format!("{:?}", v), || same("common type", &csv_util::guess_common_type(&v), &common(&v)));
    }
    }
    for s in [",", "\t", "\\t", "", ",,", ";", "é", "\u{7f}", "\\", "t", "\\n", "a", " "].iter() {
        let w = if *s == "\\t" { Some(b'\t') } else if s.len() == 1 { Some(s.as_bytes()[0]) } else { None };
        c.case("parse", format!("{:?}", s), || same("delimiter", &csv_util::parse_into_delimiter(s).ok(), &w));
    }
    // through a source: the delimiter and header of the first lines decide what is read
    for _ in 0..c.n(800) {
        let d = *c.rng.pick(&[b',', b'\t', b' ']);
        let n = c.rng.range(2, 5);
        let head = c.rng.chance(1, 2);
        let line = |c: &mut Ctx, t: u64| { let mut v = vec![t.to_string()]; v.extend((1..n).map(|i| format!("v{}", c.rng.below(100) * i))); v.join(&(d as char).to_string()) + "\n" };
        let mut text = String::new();
        if head { let mut v = vec!["time".to_string()]; v.extend((1..n).map(|i| format!("h{}", i))); text.push_str(&(v.join(&(d as char).to_string()) + "\n")); }
        let m = c.rng.range(2, 5);
        for k in 0..m { let t = 1_500_000_000 + k as u64; text.push_str(&line(c, t)); }
        c.case("source", format!("{:?}", text), || {
            let tc = TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails());
            let cfg = show_err(CSVInputConfig::new(None, YesNoAuto::Auto, tc))?;
            let mut s: Box<dyn Source> = Box::new(show_err(CSVSource::new(previewer(text.clone().into_bytes(), vec![])?, &cfg))?);
            same("columns", &s.header().field_names().len(), &n)?;
            let (got, e) = drain(&mut s);
            same("end", &e, &None)?;
            let want: Vec<R> = text.lines().skip(if head { 1 } else { 0 }).enumerate().map(|(k, l)| ((1_500_000_000 + k as u64) * 1_000_000_000, l.split(d as char).map(|x| V::S(x.to_string())).collect())).collect();
            same("rows", &got, &want)
        });
    }
}
