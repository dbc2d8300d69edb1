// time-parse, time-detect
use crate::common::*;
use crate::p_csv::{civil, days, offset_at, previewer, ZONES, UNITS};
use chopper::chopper::chopper::Source;
use chopper::chopper::types::TimestampRange;
use chopper::cli::util::YesNoAuto;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::csv_source::CSVSource;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::timestamp_util::parse_datetime_range_element;
use chopper::util::tz::ChopperTz;
use chrono_tz::Tz;

/// a point on the calendar, without a zone
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct L { pub y: i64, pub mo: i64, pub d: i64, pub h: i64, pub mi: i64, pub s: i64, pub ns: i64 }
impl L {
    fn secs(&self) -> i64 { days(self.y, self.mo, self.d) * 86400 + self.h * 3600 + self.mi * 60 + self.s }
    fn of(secs: i64, ns: i64) -> L { let (y, mo, d) = civil(secs.div_euclid(86400)); let t = secs.rem_euclid(86400); L { y, mo, d, h: t / 3600, mi: t / 60 % 60, s: t % 60, ns } }
}
fn nanos(utc: i64, ns: i64) -> Option<u64> { if utc < 0 { return None; } let n = utc as i128 * 1_000_000_000 + ns as i128; if n > u64::MAX as i128 { None } else { Some(n as u64) } }
/// the one instant at which clocks in this zone show l; None: there is none, or there are two, or it does not fit
pub fn at_zone(l: &L, tz: Option<Tz>) -> Option<u64> {
    let tz = tz?;
    let s = l.secs();
    let mut offs: Vec<i64> = (-8..=8).map(|k| offset_at(tz, s + k * 6 * 3600)).collect();
    offs.sort_unstable();
    offs.dedup();
    let hits: Vec<i64> = offs.iter().map(|o| s - o).filter(|u| u + offset_at(tz, *u) == s).collect();
    if hits.len() == 1 { nanos(hits[0], l.ns) } else { None }
}
fn gen_l(c: &mut Ctx) -> L {
    let s = match c.rng.below(10) {
        0 => *c.rng.pick(&[0i64, -1, 1, 86399, 951_782_400, 1_583_020_799, 4_102_444_800, 18_446_744_073, 18_446_744_074, 18_400_000_000, 19_000_000_000, -86400, 253_402_300_799]),
        // around the change of the clocks
        1 | 2 => *c.rng.pick(&[1_552_201_200i64, 1_572_760_800, 1_552_201_200 - 5 * 3600, 1_572_760_800 - 5 * 3600, 1_554_562_800 + 39600, 1_570_287_600 + 37800, 1_554_562_800, 788_918_400 - 36000, 1_552_190_000, /* Sao Paulo: at midnight */ 1541289600, 1508025600, 1518912000]) + c.rng.below(10_000) as i64 - 5000,
        3 => c.rng.next() as i64 % 20_000_000_000,
        _ => c.rng.below(4_000_000_000) as i64,
    };
    let ns = match c.rng.below(4) { 0 => 0, 1 => *c.rng.pick(&[1i64, 999, 1000, 999_999_999, 500_000_000, 1_000_000]), 2 => c.rng.below(1000) as i64 * 1_000_000, _ => c.rng.below(1_000_000_000) as i64 };
    L::of(s, ns)
}
fn zone(c: &mut Ctx) -> Option<Tz> { if c.rng.chance(1, 8) { None } else { Some(*c.rng.pick(&ZONES)) } }
fn ctz(z: Option<Tz>) -> ChopperTz { match z { Some(z) => ChopperTz::from(z), None => ChopperTz::new_always_fails() } }
fn frac(ns: i64, digits: usize) -> String { if digits == 0 { String::new() } else { format!(".{}", &format!("{:09}", ns)[..digits]) } }
fn keep(l: &mut L, digits: usize) { let p = 10i64.pow(9 - digits as u32); l.ns = l.ns / p * p; }

pub fn time_parse(c: &mut Ctx) {
    // ---- begin and end of a time range
    for _ in 0..c.n(12000) {
        let z = zone(c);
        let mut l = gen_l(c);
        let off = *c.rng.pick(&[0i64, 3600, -18000, 34200, -12600, 50400, -43200, 60]);
        let (text, want): (String, Option<u64>) = match c.rng.below(8) {
            0 => { // a number
                let n = match c.rng.below(5) { 0 => *c.rng.pick(&[630_000_000u64, 629_999_999, 1_999_999_999, 2_000_000_000, 630_000_000_000, 1_999_999_999_999, 630_000_000_000_000, 1_999_999_999_999_999, 630_000_000_000_000_000, 1_999_999_999_999_999_999]), k => (630_000_000 + c.rng.below(1_370_000_000) as u64) * [1_000_000_000, 1_000_000, 1000, 1][k - 1] + if k < 4 { c.rng.below(1000) as u64 } else { 0 } };
                let f = [(630_000_000u64, 1_000_000_000u64), (630_000_000_000, 1_000_000), (630_000_000_000_000, 1000), (630_000_000_000_000_000, 1)].iter().find(|(lo, m)| n >= *lo && n < 2_000_000_000 * (1_000_000_000 / m)).map(|(_, m)| n * m);
                (if f.is_some() && c.rng.chance(1, 10) { format!("0{}", n) } else { n.to_string() }, f)
            }
            1 => { l = L { h: 0, mi: 0, s: 0, ns: 0, ..l }; if l.y < 1000 || l.y > 9999 { continue; } match c.rng.below(3) { 0 => { l.mo = 1; l.d = 1; (format!("{}", l.y), at_zone(&l, z)) } 1 => { l.d = 1; (format!("{}{:02}", l.y, l.mo), at_zone(&l, z)) } _ => (format!("{}{:02}{:02}", l.y, l.mo, l.d), at_zone(&l, z)) } }
            2 | 3 => { // with its own offset
                if l.y < 1000 || l.y > 9999 { continue; }
                let d = c.rng.below(10);
                keep(&mut l, d);
                let u = L::of(l.secs() - off, 0);
                let _ = u;
                let o = format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60);
                let o = if off == 0 && c.rng.chance(1, 2) { "Z".to_string() } else { o };
                (format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}", l.y, l.mo, l.d, l.h, l.mi, l.s, frac(l.ns, d), o), nanos(l.secs() - off, l.ns))
            }
            _ => {
                if l.y < 1000 || l.y > 9999 { continue; }
                let d = if c.rng.chance(1, 2) { 0 } else { c.rng.range(1, 9) };
                keep(&mut l, d);
                let date = match c.rng.below(3) { 0 => format!("{:04}{:02}{:02}", l.y, l.mo, l.d), 1 => format!("{:04}/{:02}/{:02}", l.y, l.mo, l.d), _ => format!("{:04}-{:02}-{:02}", l.y, l.mo, l.d) };
                let time = if c.rng.chance(1, 2) { format!("{:02}:{:02}:{:02}", l.h, l.mi, l.s) } else { format!("{:02}{:02}{:02}", l.h, l.mi, l.s) };
                (format!("{}{}{}{}", date, c.rng.pick(&[" ", "-", "T"]), time, frac(l.ns, d)), at_zone(&l, z))
            }
        };
        let (text, want) = if c.rng.chance(1, 12) { let x = *c.rng.pick(&["x", "#", " +", ":", "."]); if text.bytes().all(|b| b.is_ascii_digit()) && x == "." { continue; } (if c.rng.chance(1, 4) { format!("x{}", text) } else { format!("{}{}", text, x) }, None) } else { (text, want) };
        let begin = c.rng.chance(1, 2);
        c.case("range-time", format!("{:?} zone {:?}", text, z), || {
            let r = parse_datetime_range_element(&text, &ctz(z));
            same("nanos since 1970", &r.as_ref().ok().cloned(), &want)?;
            let (b, e) = if begin { (Some(&text[..]), None) } else { (None, Some(&text[..])) };
            match TimestampRange::new(b, e, &ctz(z)) { Ok(r) => same("range", &(r.begin, r.end), &(if begin { want } else { None }, if begin { None } else { want })), Err(_) => if want.is_none() { Ok(()) } else { Err("range refused".into()) } }
        });
    }
    for t in &["", "x", "2019-13-01", "20191301", "2019-02-29T00:00:00", "2019071", "1999010", "201907010", "2019-07", "2019/07/01", "20190701T", "20190701-", "19", "201", "20191", "20190101-24:00:00", "2019010", "99999999999999999999", "2019-01-01", "-5", "12", "1.5", "20190101-00:00:00.", "２０１９", "2000000000", "2000000000000", "2000000000000000", "2000000000000000000", "629999999", "629999999999", "629999999999999", "629999999999999999", "2019010112", "201901011230", "20190101123", "20190101 12", "20190101-12:30"] {
        c.case("range-time", format!("not a time: {:?}", t), || if parse_datetime_range_element(t, &ChopperTz::from(chrono_tz::Tz::UTC)).is_ok() { Err("taken".into()) } else { Ok(()) });
    }
    // the first moments, and years of every century
    let utc = ChopperTz::from(chrono_tz::Tz::UTC);
    for (t, w) in &[("1970-01-01T00:00:00", 0u64), ("19700101-000000", 0), ("1970", 0), ("197001", 0), ("19700101", 0), ("1970/01/01 00:00:00.000000001", 1), ("1970-01-01T00:00:00.999999999Z", 999_999_999), ("2554-07-21T23:34:33.709551615Z", u64::MAX), ("25540721-233433.709551615", u64::MAX)] {
        c.case("range-time", format!("{:?}", t), || {
            same("nanos since 1970", &parse_datetime_range_element(t, &utc).ok(), &Some(*w))?;
            let r = show_err(TimestampRange::new(Some(t), Some(t), &utc))?;
            same("range", &(r.begin, r.end), &(Some(*w), Some(*w)))
        });
    }
    for y in 1970..2600i64 { for (t, m) in &[(format!("{}", y), 1i64), (format!("{}02", y), 2), (format!("{}1201", y), 12)] {
        c.case("range-time", format!("{:?}", t), || same("nanos since 1970", &parse_datetime_range_element(t, &utc).ok(), &nanos(days(y, *m, 1) * 86400, 0)));
    } }
    for t in &["1969", "1969-12-31T23:59:59.999999999", "19691231", "2554-07-21T23:34:33.709551616Z", "2555", "9999"] {
        c.case("range-time", format!("out of range: {:?}", t), || if parse_datetime_range_element(t, &utc).is_ok() { Err("taken".into()) } else { Ok(()) });
    }
    // ---- timestamps of csv rows with a given format
    for _ in 0..c.n(5000) {
        let z = zone(c);
        let split = c.rng.chance(1, 4);
        let kind = c.rng.below(if split { 3 } else { 8 });
        let (unit, mult, uname, _) = *c.rng.pick(&UNITS);
        let off = *c.rng.pick(&[0i64, 3600, -18000, 34200]);
        let m = c.rng.range(1, 5);
        let mut rows = vec![];
        for _ in 0..m {
            let mut l = gen_l(c);
            if l.y < 1000 || l.y > 9999 { l = L { y: 2019, mo: 12, d: 31, h: 23, mi: 59, s: 59, ns: 0 }; }
            let date = |sep: &str| format!("{:04}{}{:02}{}{:02}", l.y, sep, l.mo, sep, l.d);
            let hms = format!("{:02}:{:02}:{:02}", l.h, l.mi, l.s);
            let n0 = L { ns: 0, ..l };
            let (cells, want): (Vec<String>, Option<u64>) = if split { match kind {
                0 => (vec![date("-"), hms], at_zone(&n0, z)),
                1 => (vec![format!("{:02}.{:02}.{:04}", l.d, l.mo, l.y), format!("{}{}", hms, frac(l.ns, 9))], at_zone(&l, z)),
                _ => (vec![date(""), format!("{:02}{:02}", l.h, l.mi)], at_zone(&L { s: 0, ns: 0, ..l }, z)),
            } } else { match kind {
                0 if c.rng.chance(1, 12) => (vec![c.rng.pick(&["1.5", "-1", "1e3", "x", "18446744073709551616", "99999999999999999999999", "1_000", "0x10", "1 0", "１", "1.0", "NaN", "2019-12-31"]).to_string()], None),
                0 | 1 => { let x = if c.rng.chance(1, 4) { *c.rng.pick(&[0u64, u64::MAX, u64::MAX / mult, (u64::MAX / mult).wrapping_add(1)]) } else if c.rng.chance(1, 4) { c.rng.next() } else { c.rng.next() % 1_000_000_000_000 }; (vec![x.to_string()], x.checked_mul(mult)) }
                2 => (vec![format!("{} {}", date("-"), hms)], at_zone(&n0, z)),
                3 => (vec![format!("{}T{}{}", date("/"), hms, frac(l.ns, 6))], { keep(&mut l, 6); at_zone(&l, z) }),
                4 => (vec![date("-")], at_zone(&L { h: 0, mi: 0, s: 0, ..n0 }, z)),
                5 => (vec![format!("{:02}/{:02}/{:04}", l.d, l.mo, l.y)], at_zone(&L { h: 0, mi: 0, s: 0, ..n0 }, z)),
                6 => (vec![format!("{} {} {}{:02}{:02}", date("-"), hms, if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60)], nanos(l.secs() - off, 0)),
                _ => (vec![format!("{}T{}{}{}{:02}:{:02}", date("-"), hms, frac(l.ns, 9), if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60)], nanos(l.secs() - off, l.ns)),
            } };
            // text around it that does not belong there
            let (cells, want) = if !split && kind > 1 && c.rng.chance(1, 10) { let x = *c.rng.pick(&["Z", "x", "#", "+", "Z ", " UTC", ".", ":", "0:"]); (vec![if c.rng.chance(1, 4) { format!("x{}", cells[0]) } else { format!("{}{}", cells[0], x) }], None) } else { (cells, want) };
            let (cells, want) = if split && c.rng.chance(1, 12) { let (k, mut cells) = (c.rng.below(4), cells); let x = *c.rng.pick(&["#", " #", "x"]); match k { 0 => cells[0].push_str(x), 1 => cells[0].insert_str(0, x), 2 => cells[1].push_str(x), _ => cells[1].insert_str(0, x) } (cells, None) } else { (cells, want) };
            rows.push((cells, want));
        }
        let fmt = if split { let f = [("%Y-%m-%d", "%H:%M:%S"), ("%d.%m.%Y", "%H:%M:%S%.f"), ("%Y%m%d", "%H%M")][kind]; TimestampFmtConfig::DateTimeExplicit(f.0.into(), f.1.into()) }
            else { match kind { 0 | 1 => TimestampFmtConfig::Epoch(unit), k => TimestampFmtConfig::Explicit(["%Y-%m-%d %H:%M:%S", "%Y/%m/%dT%H:%M:%S%.f", "%Y-%m-%d", "%d/%m/%Y", "%Y-%m-%d %H:%M:%S %z", "%Y-%m-%dT%H:%M:%S%.f%:z"][k - 2].into()) } };
        let by_name = c.rng.chance(1, 2);
        let col = if split { if by_name { TimestampColConfig::DateTimeName("p".into(), "q".into()) } else { TimestampColConfig::DateTimeIndex(2, 1) } } else if by_name { TimestampColConfig::Name("p".into()) } else { TimestampColConfig::Index(2) };
        c.case("csv-time", format!("format {:?} units {} zone {:?} rows {:?}", fmt, uname, z, rows), || {
            let mut t = "a;q;p\n".to_string();
            for (cells, _) in &rows { t += &if split { format!("x;{};{}\n", cells[1], cells[0]) } else { format!("x;y;{}\n", cells[0]) }; }
            let cfg = show_err(CSVInputConfig::new(Some(";"), YesNoAuto::Yes, TimestampConfig::new(col, fmt, ctz(z))))?;
            let mut want: Vec<u64> = rows.iter().take_while(|r| r.1.is_some()).map(|r| r.1.unwrap()).collect();
            let bad = want.len() < rows.len();
            match CSVSource::new(previewer(t.into_bytes(), vec![])?, &cfg) {
                Err(e) => if bad && want.is_empty() { Ok(()) } else { Err(format!("unexpected error: {}", e)) },
                Ok(s) => {
                    let mut s: Box<dyn Source> = Box::new(s);
                    let (got, e) = drain(&mut s);
                    let got: Vec<u64> = got.iter().map(|r| r.0).collect();
                    if bad { if e.is_none() { return Err(format!("a time that is no instant was taken: {:?}", got)); } want.truncate(got.len()); return same("timestamps before it", &got, &want); }
                    same("end", &e, &None)?;
                    same("timestamps", &got, &want)
                }
            }
        });
    }
    // ---- the zone: given by name, by a name of the caller's own, by nothing
    for z in ZONES.iter() {
        // by the environment, unless the argument names one
        c.case("zone", format!("{:?} by the environment", z), || {
            let l = L { y: 2019, mo: 7, d: 1, h: 3, mi: 4, s: 5, ns: 6 };
            std::env::set_var("CHOPPER_TZ", z.name());
            let t = [ChopperTz::new_from_cli_arg(None, None), ChopperTz::new_from_cli_arg(None, Some(Default::default())), ChopperTz::new_from_cli_arg(Some("Asia/Tokyo"), None)];
            std::env::remove_var("CHOPPER_TZ");
            for (t, z) in t.iter().zip(&[*z, *z, chrono_tz::Asia::Tokyo]) { same("time", &parse_datetime_range_element("2019-07-01T03:04:05.000000006", t).ok(), &at_zone(&l, Some(*z)))?; }
            Ok(())
        });
        let mut m = std::collections::HashMap::new();
        m.insert("home", *z);
        // names of the caller's own come first, also where there is a zone of that name
        for n in &["EST", "UTC", "Europe/London", "GMT"] { m.insert(*n, *z); }
        c.case("zone", format!("{:?} by name and by a name of the caller", z), || {
            let l = L { y: 2019, mo: 7, d: 1, h: 3, mi: 4, s: 5, ns: 6 };
            for t in &[ChopperTz::new_from_cli_arg(Some(z.name()), None), ChopperTz::new_from_cli_arg(Some("home"), Some(m.clone())), ChopperTz::new_from_cli_arg(Some("EST"), Some(m.clone())), ChopperTz::new_from_cli_arg(Some("UTC"), Some(m.clone())), ChopperTz::new_from_cli_arg(Some("Europe/London"), Some(m.clone())), ChopperTz::new_from_cli_arg(Some(z.name()), Some(m.clone()))] {
                same("time", &parse_datetime_range_element("2019-07-01T03:04:05.000000006", t).ok(), &at_zone(&l, Some(*z)))?;
            }
            if parse_datetime_range_element("20190701", &ChopperTz::new_from_cli_arg(None, Some(m))).is_ok() { return Err("a zone out of nowhere".into()); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- guessing the column and the format
const UNIT_NAMES: [&str; 4] = ["seconds", "millis", "micros", "nanos"];
/// (column, column of the time if split, units) as the names of the columns say
fn ref_col(names: &[String]) -> (usize, Option<usize>, Option<usize>) {
    let low: Vec<String> = names.iter().map(|s| s.to_lowercase()).collect();
    let first = |f: &dyn Fn(&str) -> bool| low.iter().position(|s| f(s));
    let unit = |s: &str| UNIT_NAMES.iter().position(|u| *u == s);
    if let Some(i) = first(&|s| s.starts_with("time") && unit(&s[4..]).is_some()) { return (i, None, unit(&low[i][4..])); }
    let (date, time) = (first(&|s| s == "date"), first(&|s| s == "time"));
    if let Some(d) = date { return (d, time, None); }
    if let Some(t) = time { return (t, None, None); }
    let taken = |s: &str| s == "time" || s == "date" || s.starts_with("time");
    if let Some(i) = first(&|s| !taken(s) && !s.ends_with("date") && !s.ends_with("time") && UNIT_NAMES.iter().any(|u| s.ends_with(&format!("time{}", u)))) { return (i, None, UNIT_NAMES.iter().position(|u| low[i].ends_with(&format!("time{}", u)))); }
    let pd = first(&|s| !taken(s) && s.ends_with("date"));
    let pt = first(&|s| !taken(s) && s.ends_with("time"));
    if let Some(d) = pd { return (d, pt.filter(|t| low[*t][..low[*t].len() - 4] == low[d][..low[d].len() - 4]), None); }
    if let Some(t) = pt { return (t, None, None); }
    (0, None, None)
}
pub fn time_detect(c: &mut Ctx) {
    for _ in 0..c.n(10000) {
        let z = zone(c);
        let n = c.rng.range(1, 5);
        let mut names: Vec<String> = vec![];
        let plain = c.rng.chance(1, 4);
        // several dates and times that may belong together
        if !plain && c.rng.chance(1, 5) { while names.len() < n { let s = format!("{}{}", c.rng.pick(&["x", "y", "x_", "trade"]), c.rng.pick(&["date", "time", "Time", "time", "timemillis2"])); if !names.contains(&s) { names.push(s); } } }
        while names.len() < n {
            let mut s = if plain { format!("c{}", names.len()) } else {
                let a = *c.rng.pick(&["", "", "x", "Trade", "time", "y", "xtime", "ytimemillis", "trade_", "_", "my ", "ÄÖ", "date"]);
                let b = *c.rng.pick(&["time", "Date", "TIME", "date", "timeSeconds", "timemillis", "timeMICROS", "timenanos", "stamp", "timeunit", "ts", "timeseconds", "time_nanos", "date_", "datetime", "timedate", "times", "time2"]);
                format!("{}{}", a, b)
            };
            if c.rng.chance(1, 6) { s = format!("v{}", names.len()); }
            if names.contains(&s) { continue; }
            names.push(s);
        }
        // which column is asked for
        let way = c.rng.below(6);
        let suffix = |s: &str| UNIT_NAMES.iter().position(|u| s.ends_with(u));
        let k = c.rng.below(n);
        let k2 = c.rng.below(n);
        let (cfg, (col, tcol, hint)) = match way {
            0 | 1 | 2 => (TimestampColConfig::Auto, ref_col(&names)),
            3 => (TimestampColConfig::Index(k), (k, None, suffix(&names[k]))),
            4 => (TimestampColConfig::Name(names[k].clone()), (k, None, suffix(&names[k]))),
            _ => if k == k2 { continue } else if c.rng.chance(1, 2) { (TimestampColConfig::DateTimeIndex(k, k2), (k, Some(k2), None)) } else { (TimestampColConfig::DateTimeName(names[k].clone(), names[k2].clone()), (k, Some(k2), None)) },
        };
        // what is in the time column
        let mut l = gen_l(c);
        if l.y < 1971 || l.y > 2500 { l = L { y: 2019, mo: 12, d: 31, h: 23, mi: 59, s: 58, ns: 123_456_789 }; }
        let d8 = format!("{:04}{:02}{:02}", l.y, l.mo, l.d);
        let n0 = L { ns: 0, ..l };
        let (cells, want): (Vec<String>, Option<u64>) = if tcol.is_some() {
            match c.rng.below(6) {
                0 => (vec![d8, format!("{:02}{:02}{:02}{:03}", l.h, l.mi, l.s, l.ns / 1_000_000)], { keep(&mut l, 3); at_zone(&l, z) }),
                1 => (vec![d8, format!("{:02}{:02}{:02}", l.h, l.mi, l.s)], at_zone(&n0, z)),
                2 => (vec![d8, format!("{:02}:{:02}:{:02}", l.h, l.mi, l.s)], at_zone(&n0, z)),
                3 => (vec![d8, format!("{}:{:02}", l.h, l.mi)], at_zone(&L { s: 0, ..n0 }, z)),
                4 => (vec![format!("{:04}-{:02}-{:02}", l.y, l.mo, l.d), format!("{:02}:{:02}:{:02}", l.h, l.mi, l.s)], None),
                _ => (vec!["junk".into(), "1".into()], None),
            }
        } else if let Some(u) = hint {
            if c.rng.chance(1, 8) { (vec![d8 + "T"], None) } else { let x = c.rng.next() % 10_000_000_000; (vec![x.to_string()], x.checked_mul(UNITS[u].1)) }
        } else {
            match c.rng.below(9) {
                0 => (vec![format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}+01:30", l.y, l.mo, l.d, l.h, l.mi, l.s, l.ns)], nanos(l.secs() - 5400, l.ns)),
                1 => (vec![format!("{}.{:02}{:02}{:02}", d8, l.h, l.mi, l.s)], at_zone(&n0, z)),
                2 => (vec![format!("{} {:02}{:02}{:02}", d8, l.h, l.mi, l.s)], at_zone(&n0, z)),
                3 => (vec![format!("{} {:02}:{:02}:{:02}", d8, l.h, l.mi, l.s)], at_zone(&n0, z)),
                4 => (vec![format!("{:04}/{:02}/{:02}-{:02}:{:02}:{:02}", l.y, l.mo, l.d, l.h, l.mi, l.s)], at_zone(&n0, z)),
                5 => (vec![d8], at_zone(&L { h: 0, mi: 0, s: 0, ..n0 }, z)),
                6 | 7 => {
                    let x = match c.rng.below(5) { 0 => *c.rng.pick(&[630_000_000u64, 629_999_999, 1_999_999_999, 2_000_000_000, 630_000_000_000, 629_999_999_999, 1_999_999_999_999, 2_000_000_000_000, 630_000_000_000_000, 1_999_999_999_999_999, 630_000_000_000_000_000, 1_999_999_999_999_999_999, 2_000_000_000_000_000_000, u64::MAX]), k => (630_000_000 + c.rng.below(1_370_000_000) as u64) * [1_000_000_000, 1_000_000, 1000, 1][k - 1] };
                    let w = [(630_000_000u64, 1_000_000_000u64), (630_000_000_000, 1_000_000), (630_000_000_000_000, 1000), (630_000_000_000_000_000, 1)].iter().find(|(lo, m)| x >= *lo && x < 2_000_000_000 * (1_000_000_000 / m)).map(|(_, m)| x * m);
                    (vec![if w.is_some() && c.rng.chance(1, 10) { format!("0{}", x) } else { x.to_string() }], w)
                }
                _ => (vec![c.rng.pick(&["junk", "12", "99999999999999999999", "2019-01-01", "1.5"]).to_string()], None),
            }
        };
        let mut row: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
        row[col] = cells[0].clone();
        if let Some(t) = tcol { row[t] = cells[1].clone(); }
        let has_header = plain && way < 4 && c.rng.chance(1, 2);
        let text = if has_header { format!("{}\n", row.join(",")) } else { format!("{}\n{}\n", names.join(","), row.join(",")) };
        c.case("detect", format!("columns {:?} asked for {:?} zone {:?} text {:?}", names, cfg, z, text), || {
            let cfg = show_err(CSVInputConfig::new(Some(","), if has_header { YesNoAuto::No } else { YesNoAuto::Yes }, TimestampConfig::new(cfg, TimestampFmtConfig::Auto, ctz(z))))?;
            let got = match CSVSource::new(previewer(text.into_bytes(), vec![])?, &cfg) { Err(_) => None, Ok(s) => { let mut s: Box<dyn Source> = Box::new(s); let (v, e) = drain(&mut s); if e.is_some() || v.len() != 1 { None } else { Some(v[0].0) } } };
            same("timestamp", &got, &want)
        });
    }
    for cfg in vec![TimestampColConfig::Name("nope".into()), TimestampColConfig::DateTimeName("a".into(), "nope".into()), TimestampColConfig::Index(9), TimestampColConfig::DateTimeIndex(0, 9), TimestampColConfig::Name("A".into()), TimestampColConfig::Name(" a".into()), TimestampColConfig::Name("a ".into()), TimestampColConfig::Name("".into()), TimestampColConfig::DateTimeName("A".into(), "B".into()), TimestampColConfig::DateTimeName("a".into(), "B".into()), TimestampColConfig::DateTimeName("A".into(), "b".into()), TimestampColConfig::DateTimeName("nope".into(), "b".into()), TimestampColConfig::Index(2), TimestampColConfig::DateTimeIndex(2, 0), TimestampColConfig::DateTimeIndex(0, 2), TimestampColConfig::Index(usize::max_value()), TimestampColConfig::Name("0".into())] {
        c.case("detect", format!("no such column {:?}", cfg), || {
            let cfg = show_err(CSVInputConfig::new(Some(","), YesNoAuto::Yes, TimestampConfig::new(cfg, TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ctz(None))))?;
            if CSVSource::new(previewer(b"a,b\n1,2\n".to_vec(), vec![])?, &cfg).is_ok() { Err("no error".into()) } else { Ok(()) }
        });
    }
}
