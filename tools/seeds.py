PRELUDE = r'''
#![allow(unused_imports, dead_code)]
use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, MergeHeaderSink, Source, SplitHeaderSink};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange, TIMESTAMP_RANGE_ALL};
use chopper::cli::util::YesNoAuto;
use chopper::driver::{driver::Driver, merge_join::MergeJoin, split::Split};
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::*;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use std::cell::RefCell;
use std::rc::Rc;
type Log = Rc<RefCell<Vec<String>>>;
fn msg<T>(r: CliResult<T>) -> Result<T, String> { r.map_err(|e| format!("{}", e)) }
struct Rows { h: Header, rows: Vec<Option<Row>> }   // None = a read failure there
impl Source for Rows {
    fn header(&self) -> &Header { &self.h }
    fn next_row(&mut self) -> CliResult<Option<Row>> { if self.rows.is_empty() { return Ok(None); } match self.rows.remove(0) { Some(r) => Ok(Some(r)), None => Err(Error::from("read failure")) } }
}
fn row(t: u64, v: i64) -> Row { Row { timestamp: t, field_values: vec![FieldValue::Long(v)] } }
fn head(names: &[&str]) -> Header { Header::new(names.iter().map(|s| s.to_string()).collect(), names.iter().map(|_| FieldType::Long).collect()) }
fn src(rows: Vec<Option<Row>>) -> Box<dyn Source> { Box::new(Rows { h: head(&["a"]), rows }) }
struct Rec { name: &'static str, log: Log, times: usize }
impl HeaderSink for Rec { fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> { self.log.borrow_mut().push(format!("{} header {:?} {:?}", self.name, h.field_names(), h.field_types())); Ok(self.boxed()) } }
impl DataSink for Rec {
    fn write_row(&mut self, io: &mut Vec<Row>) -> CliResult<()> { let r = io[0].clone(); self.log.borrow_mut().push(format!("{} {} {:?}", self.name, r.timestamp, r.field_values)); for k in 1..self.times { let mut c = r.clone(); c.timestamp += k as u64; io.push(c); } Ok(()) }
    fn flush(&mut self) -> CliResult<()> { self.log.borrow_mut().push(format!("{} flush", self.name)); Ok(()) }
    fn boxed(self) -> Box<dyn DataSink> { Box::new(self) }
}
fn rec(name: &'static str, log: &Log) -> HeaderNode { HeaderNode::HeaderSink(Box::new(Rec { name, log: log.clone(), times: 1 })) }
fn chain(n: Vec<HeaderNode>) -> HeaderChain { HeaderChain::new(n) }
fn merge_node(n: usize) -> HeaderNode { let m = MergeJoin::new(n).ok().unwrap(); let t = m.get_new_header_count_tracker(); HeaderNode::MergeHeaderSink(m, t) }
fn split_node(c: Vec<usize>) -> HeaderNode { let m = Split::new(c); let t = m.get_new_header_count_tracker(); HeaderNode::SplitHeaderSink(m, t) }
fn run(sources: Vec<Box<dyn Source>>, chains: Vec<HeaderChain>, range: TimestampRange) -> CliResult<()> {
    let hs = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = Driver::new(sources, HeaderGraph::new(chains), range, hs)?;
    ChopperDriver::drive(&mut d)
}
fn csv_in(epoch: bool, tz: ChopperTz) -> CSVInputConfig {
    let tc = TimestampConfig::new(TimestampColConfig::Auto, if epoch { TimestampFmtConfig::Epoch(TimestampUnits::Nanos) } else { TimestampFmtConfig::Auto }, tz);
    CSVInputConfig::new(Some(","), YesNoAuto::Yes, tc).ok().unwrap()
}
fn open(path: &str, cfg: CSVInputConfig) -> CliResult<Box<dyn Source>> { InputFactory::new(cfg, None, None)?.create_source_from_path(path) }
fn all(s: &mut Box<dyn Source>) -> (Vec<String>, bool) { let mut v = vec![]; loop { match s.next_row() { Ok(None) => return (v, true), Ok(Some(r)) => v.push(format!("{} {:?}", r.timestamp, r.field_values)), Err(_) => return (v, false) } } }
fn check(name: &str, ok: bool) { if !ok { println!("broken: {}", name); std::process::exit(1); } }
'''
S = lambda id, prop, file, old, new, needs, breaks, demo, **k: dict(id=id, prop=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo, **k)
SEEDS = [
S("c01-signed", "C01", "src/driver/driver.rs", "i1.timestamp().cmp(&i2.timestamp())", "(i1.timestamp() as i64).cmp(&(i2.timestamp() as i64))",
  "two inputs of which one has a timestamp of 2^63 or more (year 2262 and later) and the other smaller ones",
  "rows of different inputs are no longer delivered in time order",
  r'''fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![HeaderNode::Merge(2)]), chain(vec![HeaderNode::Merge(2)]), chain(vec![merge_node(2), rec("o", &log)])];
    run(vec![src(vec![Some(row(5, 1)), Some(row(1 << 63, 2))]), src(vec![Some(row(7, 3)), Some(row(9, 4))])], c, TIMESTAMP_RANGE_ALL).ok().unwrap();
    let t: Vec<u64> = log.borrow().iter().filter_map(|l| l.split(' ').nth(1)?.parse().ok()).collect();
    check("order", t == vec![5, 7, 9, 1 << 63]);
}'''),
S("c02-end", "C02", "src/driver/source_row_buffer.rs", "timestamp >= timestamp_range.end.unwrap()", "timestamp > timestamp_range.end.unwrap()",
  "an end time equal to the timestamp of a row", "the row at the end time itself is delivered",
  r'''fn main() {
    let log: Log = Default::default();
    run(vec![src(vec![Some(row(1, 1)), Some(row(5, 2)), Some(row(6, 3))])], vec![chain(vec![rec("o", &log)])], TimestampRange { begin: Some(1), end: Some(5) }).ok().unwrap();
    check("rows", log.borrow().iter().filter(|l| l.contains("Long(") && !l.contains("header")).count() == 1);
}'''),
S("c03-multiplied", "C03", "src/driver/driver.rs", "let row = rows.remove(0);", "let row = rows.swap_remove(0);",
  "a stage that turns one row into three or more", "the rows a stage made go on in another order",
  r'''fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![HeaderNode::HeaderSink(Box::new(Rec { name: "m", log: log.clone(), times: 3 })), rec("o", &log)])];
    run(vec![src(vec![Some(row(10, 1))])], c, TIMESTAMP_RANGE_ALL).ok().unwrap();
    let t: Vec<String> = log.borrow().iter().filter(|l| l.starts_with("o 1")).map(|l| l[2..4].to_string()).collect();
    check("order of multiplied rows", t == vec!["10", "11", "12"]);
}'''),
S("c03-flush-merge", "C03", "src/driver/driver.rs", "self.flush(next_chain_id, 0)?;\n                    // that's right, continue processing current chain to support \"tees\"\n                }\n                DataNode::Split", "return self.flush(next_chain_id, 0);\n                }\n                DataNode::Split",
  "a chain that goes on after it joined another one (a tee)", "the end of the input is not passed to the stages after the merge",
  r'''fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![HeaderNode::Merge(1), rec("tee", &log)]), chain(vec![merge_node(1), rec("o", &log)])];
    run(vec![src(vec![Some(row(10, 1))])], c, TIMESTAMP_RANGE_ALL).ok().unwrap();
    check("flush of the tee", log.borrow().iter().any(|l| l == "tee flush"));
}'''),
S("c04-split-header", "C04", "src/chopper/header_graph.rs", "self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;", "self = self.match_remove_chain(data_graph, *i, header)?;",
  "a split into a branch that changes the header, followed by another branch or stage", "later branches are given the header as changed by an earlier branch",
  r'''fn main() {
    let log: Log = Default::default();
    let del = chopper::filter::column_filter_delete_col::ColumnFilterDelete::new("a");
    let c = vec![chain(vec![split_node(vec![1, 2])]), chain(vec![HeaderNode::HeaderSink(del), rec("one", &log)]), chain(vec![rec("two", &log)])];
    run(vec![src(vec![Some(row(10, 1))])], c, TIMESTAMP_RANGE_ALL).ok().unwrap();
    check("header of the second branch", log.borrow().iter().any(|l| l == "two header [\"a\"] [Long]"));
}'''),
S("c04-merge-types", "C04", "src/driver/merge_join.rs", "if !header.eq(h) {", "if header.field_names() != h.field_names() {",
  "two inputs whose columns have the same names but different types", "a merge of inputs with different headers is accepted",
  r'''fn main() {
    let log: Log = Default::default();
    let other = Box::new(Rows { h: Header::new(vec!["a".into()], vec![FieldType::Int]), rows: vec![] });
    let c = vec![chain(vec![HeaderNode::Merge(2)]), chain(vec![HeaderNode::Merge(2)]), chain(vec![merge_node(2), rec("o", &log)])];
    check("refused", run(vec![src(vec![Some(row(5, 1))]), other], c, TIMESTAMP_RANGE_ALL).is_err());
}'''),
S("c05-late-error", "C05", "src/driver/source_row_buffer.rs", "let next_row = match_next_row(&mut self.source, &timestamp_range)?;", "let next_row = match_next_row(&mut self.source, &timestamp_range).unwrap_or(None);",
  "an input that fails after its first row", "the run reports success although an input was not read to its end",
  r'''fn main() {
    let log: Log = Default::default();
    check("error", run(vec![src(vec![Some(row(5, 1)), None, Some(row(6, 1))])], vec![chain(vec![rec("o", &log)])], TIMESTAMP_RANGE_ALL).is_err());
}'''),
S("c06-long-string", "C06", "src/util/dc_util.rs", "x if x <= std::i16::MAX as usize", "x if x < std::u16::MAX as usize",
  "a string of 32768 to 65534 bytes", "the string does not come back when the dc file is read",
  r'''fn main() {
    let s: Box<dyn HeaderSink> = Box::new(chopper::write::dc_sink::DCSink::new(&Some("x.dc".to_string())).ok().unwrap());
    let mut h = Header::new(vec!["a".into()], vec![FieldType::String]);
    let mut d = s.process_header(&mut h).ok().unwrap();
    for n in &[3usize, 32767, 40000, 70000] { d.write_row(&mut vec![Row { timestamp: *n as u64, field_values: vec![FieldValue::String("x".repeat(*n))] }]).ok().unwrap(); }
    d.flush().ok().unwrap();
    drop(d);
    let mut r = open("x.dc", csv_in(true, ChopperTz::new_always_fails())).ok().unwrap();
    for n in &[3usize, 32767, 40000, 70000] { match r.next_row() { Ok(Some(r)) => check("string", r.timestamp == *n as u64 && r.field_values[0] == FieldValue::String("x".repeat(*n))), _ => check("row", false) } }
    check("end", matches!(r.next_row(), Ok(None)));
}'''),
S("c07-hint", "C07", "src/util/dc_util.rs", "n => return Err(Error::from(format!(\"unexpected display hint value: {}\", n))),", "_ => DisplayHint::None,",
  "a dc header with a damaged display hint", "a malformed header is taken without an error",
  r'''fn main() {
    let mut b: Vec<u8> = vec![0, 0, 0, 0, 0x44, 0x43, 0x41, 0x54, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, b'a', 0, 0, 0, 1, b'I'];
    let mut good = b.clone();
    b.extend_from_slice(&[0, 0, 1, 0]); good.extend_from_slice(&[255, 255, 255, 255]);
    std::fs::write("b.dc", &b).unwrap(); std::fs::write("g.dc", &good).unwrap();
    check("good header", open("g.dc", csv_in(true, ChopperTz::new_always_fails())).is_ok());
    check("bad header", open("b.dc", csv_in(true, ChopperTz::new_always_fails())).is_err());
}'''),
S("c08-nan", "C08", "src/filter/row_filter_greater_value.rs", "if Some(Ordering::Greater) != field_value.partial_cmp(&self.value) {", "if field_value <= &self.value {",
  "a floating point column with NaN in it", "the greater filter keeps rows whose value is not greater",
  r'''fn main() {
    let f = chopper::filter::row_filter_greater_value::RowFilterGreaterValue::new("a", FieldValue::Double(1.0));
    let mut d = f.process_header(&mut Header::new(vec!["a".into()], vec![FieldType::Double])).ok().unwrap();
    for (v, keep) in &[(0.5, false), (1.0, false), (1.5, true), (std::f64::NAN, false)] {
        let mut rows = vec![Row { timestamp: 1, field_values: vec![FieldValue::Double(*v)] }];
        d.write_row(&mut rows).ok().unwrap();
        check("kept", (rows.len() == 1) == *keep);
    }
}'''),
S("c09-byte", "C09", "src/write/csv_sink.rs", "FieldValue::Byte(x) => write!(self.writer, \"{}\", x)?,", "FieldValue::Byte(x) => write!(self.writer, \"{}\", *x as i8)?,",
  "a byte value of 128 or more", "byte values are written as negative numbers",
  r'''fn main() {
    let cfg = CSVOutputConfig::new(",", false, None, TimestampStyle::Epoch, TimestampUnits::Nanos, ChopperTz::new_always_fails());
    let s: Box<dyn HeaderSink> = Box::new(chopper::write::csv_sink::CSVSink::new(&Some("x.csv".to_string()), cfg).ok().unwrap());
    let mut d = s.process_header(&mut Header::new(vec!["a".into()], vec![FieldType::Byte])).ok().unwrap();
    d.write_row(&mut vec![Row { timestamp: 1, field_values: vec![FieldValue::Byte(200)] }]).ok().unwrap();
    d.flush().ok().unwrap(); drop(d);
    check("text", std::fs::read_to_string("x.csv").unwrap() == "a\n200\n");
}'''),
S("c10-trim", "C10", "src/source/csv_source.rs", ".trim(Trim::All)", ".trim(Trim::Fields)",
  "blanks around the names in the header line", "column names keep the blanks around them",
  r'''fn main() {
    std::fs::write("x.csv", "time , b\n 1 , 2\n").unwrap();
    let s = open("x.csv", csv_in(true, ChopperTz::new_always_fails())).ok().unwrap();
    check("names", s.header().field_names() == &vec!["time".to_string(), "b".to_string()]);
}'''),
S("c11-big-read", "C11", "src/util/reader.rs", "if self.pos == self.cap && buf.len() >= self.buf.len() {", "if self.pos + 1 >= self.cap && buf.len() >= self.buf.len() {",
  "a large read when exactly one byte is left in the buffer", "a byte of the input is lost",
  r"""use std::io::Read;
fn main() {
    let data: Vec<u8> = (0..20000u32).map(|i| (i % 251) as u8).collect();
    let mut r = chopper::util::reader::ChopperBufPreviewer::new(&data[..]).unwrap().get_reader();
    let mut got = vec![0u8; 8191];
    r.read_exact(&mut got).unwrap();
    let mut b = vec![0u8; 10000];
    loop { let n = r.read(&mut b).unwrap(); if n == 0 { break; } got.extend_from_slice(&b[..n]); }
    check("bytes", got == data);
}"""),
S("c12-swap-order", "C12", "src/source/multi_file_source.rs", "for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {", "for (ref_idx, &new_idx) in self.swap_map.iter().enumerate().rev() {",
  "a later file whose columns are rotated, not just swapped in pairs", "values arrive under the wrong columns",
  r'''fn main() {
    std::fs::create_dir("d").unwrap();
    std::fs::write("d/1.csv", "time,b,c,d\n1,b1,c1,d1\n").unwrap();
    std::fs::write("d/2.csv", "time,c,d,b\n2,c2,d2,b2\n").unwrap();
    let mut s = open("d", csv_in(true, ChopperTz::new_always_fails())).ok().unwrap();
    let (rows, ok) = all(&mut s);
    check("rows", ok && rows[1] == r#"2 [String("2"), String("b2"), String("c2"), String("d2")]"#);
}'''),
S("c13-raw-lzf", "C13", "src/decompress/decompress.rs", "if header24be == 0x5A560100 || header24be == 0x5A560000 {", "if header24be == 0x5A560100 {",
  "lzf data whose first block is not compressed, in a file without the suffix", "lzf input is not recognised by its first bytes",
  r'''fn main() {
    let text = b"time,b\n1,2\n";
    let mut b = vec![b'Z', b'V', 0, 0, text.len() as u8]; b.extend_from_slice(text);
    std::fs::write("x", &b).unwrap();
    let mut s = match open("x", csv_in(true, ChopperTz::new_always_fails())) { Ok(s) => s, Err(_) => { check("recognised", false); return } };
    check("names", s.header().field_names() == &vec!["time".to_string(), "b".to_string()]);
    check("rows", all(&mut s) == (vec![r#"1 [String("1"), String("2")]"#.to_string()], true));
}'''),
S("c14-comment", "C14", "src/decompress/zip.rs", "const MAX_EOCDR_SEARCH_BACK_OFFSET: i64 = 1 << 20;", "const MAX_EOCDR_SEARCH_BACK_OFFSET: i64 = 1 << 16;",
  "an archive with a comment of more than 65514 bytes", "a valid archive is refused",
  r'''fn le(v: u32, n: usize) -> Vec<u8> { v.to_le_bytes()[..n].to_vec() }
fn main() {
    for clen in &[0usize, 60000, 65535] {
        let name = b"x.csv"; let data = b"time\n1\n"; let crc = { let mut c = !0u32; for b in data.iter() { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; } } !c };
        let common = |o: &mut Vec<u8>| { o.extend(le(20, 2)); o.extend(le(0, 2)); o.extend(le(0, 2)); o.extend(le(0, 4)); o.extend(le(crc, 4)); o.extend(le(data.len() as u32, 4)); o.extend(le(data.len() as u32, 4)); o.extend(le(name.len() as u32, 2)); o.extend(le(0, 2)); };
        let mut z = le(0x04034b50, 4); common(&mut z); z.extend_from_slice(name); z.extend_from_slice(data);
        let cd = z.len() as u32;
        z.extend(le(0x02014b50, 4)); z.extend(le(20, 2)); common(&mut z); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(0, 4)); z.extend(le(0, 4)); z.extend_from_slice(name);
        let cs = z.len() as u32 - cd;
        z.extend(le(0x06054b50, 4)); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(1, 2)); z.extend(le(1, 2)); z.extend(le(cs, 4)); z.extend(le(cd, 4)); z.extend(le(*clen as u32, 2)); z.extend(vec![b'c'; *clen]);
        std::fs::write("x.zip", &z).unwrap();
        let mut s = match open("x.zip", csv_in(true, ChopperTz::new_always_fails())) { Ok(s) => s, Err(e) => { println!("{}", e); check("read", false); return } };
        check("rows", all(&mut s) == (vec![r#"1 [String("1")]"#.to_string()], true));
    }
}'''),
S("c15-ambiguous", "C15", "src/util/tz.rs", "LocalResult::None | LocalResult::Ambiguous(_, _) => Err(Custom(format!(\n                    \"Converting '{}' in timezone '{}' to timestamp failed.\",\n                    local, timezone\n                ))),\n                LocalResult::Single(t) => Ok(t),",
  "LocalResult::None => Err(Custom(format!(\n                    \"Converting '{}' in timezone '{}' to timestamp failed.\",\n                    local, timezone\n                ))),\n                LocalResult::Single(t) | LocalResult::Ambiguous(t, _) => Ok(t),",
  "a local time in the hour that a zone has twice when daylight saving ends", "a time that denotes two instants is taken for one of them",
  r'''fn main() {
    let tz = ChopperTz::new_from_cli_arg(Some("America/New_York"), None);
    let p = |s: &str| chopper::util::timestamp_util::parse_datetime_range_element(s, &tz);
    check("unique", p("2019-11-03 03:30:00").is_ok());
    check("twice", p("2019-11-03 01:30:00").is_err());
    check("skipped", p("2019-03-10 02:30:00").is_err());
}'''),
S("c16-last", "C16", "src/source/csv_timestamp.rs", ".enumerate()\n                .rev()\n            {", ".enumerate()\n            {",
  "a header with two columns of the same kind, such as open_time and close_time", "the time is taken from the last of several candidate columns instead of the first",
  r'''fn main() {
    let cfg = CSVInputConfig::new(Some(","), YesNoAuto::Yes, TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails())).ok().unwrap();
    std::fs::write("x.csv", "a,open_time,close_time\n1,2,3\n").unwrap();
    let (rows, _) = all(&mut open("x.csv", cfg).ok().unwrap());
    check("time", rows[0].starts_with("2 "));
}'''),
S("c17-common", "C17", "src/util/csv_util.rs", "FieldType::Long => guess,", "FieldType::Long => FieldType::Long,",
  "a list of types with an integer type after a floating point one", "the common type of Double and Long becomes Long",
  r'''use chopper::util::csv_util::guess_common_type;
fn main() {
    check("long double", guess_common_type(&[FieldType::Long, FieldType::Double]) == FieldType::Double);
    check("double long", guess_common_type(&[FieldType::Double, FieldType::Int]) == FieldType::Double);
}'''),
S("c18-rotate", "C18", "src/util/remove_multiple.rs", "slice[prev_index - (removed_count - 1)..current_index].rotate_left(removed_count);", "slice[prev_index - (removed_count - 1)..current_index].rotate_left(1);",
  "three or more positions with kept elements between the later ones", "other elements than those asked for are removed",
  r'''use chopper::util::remove_multiple::RemoveMultiple;
fn main() {
    let mut v: Vec<u32> = (0..8).collect();
    v.remove_multiple(&[1, 3, 6]);
    check("left", v == vec![0, 2, 4, 5, 7]);
}'''),
S("c19-version", "C19", "src/source/dc_factory.rs", "if &version != &dc_util::VERSION {\n                    return false;\n                }", "if version > dc_util::VERSION {\n                    return false;\n                }",
  "text content that starts with the dc magic number and a smaller version", "content that is not dc of the supported version is read as dc",
  r'''fn main() {
    let mut b = vec![0u8, 0, 0, 0, 0x44, 0x43, 0x41, 0x54, 0, 1]; b.extend_from_slice(b",time\nx,5\n");
    std::fs::write("x", &b).unwrap();
    let mut s = match open("x", csv_in(true, ChopperTz::new_always_fails())) { Ok(s) => s, Err(e) => { println!("{}", e); check("read as text", false); return } };
    check("rows", all(&mut s) == (vec![r#"5 [String("x"), String("5")]"#.to_string()], true));
}'''),
S("c20-prefix", "C20", "src/util/file.rs", "let read2 = file2.read(&mut buf2)?;\n            return Ok(read2 == 0);", "return Ok(true);",
  "two files of which the first is a proper prefix of the second", "files of different length compare as the same",
  r'''use chopper::util::file::are_contents_same;
fn main() {
    std::fs::write("a", vec![1u8; 8192]).unwrap(); std::fs::write("b", vec![1u8; 8193]).unwrap(); std::fs::write("c", vec![1u8; 8192]).unwrap();
    check("same", are_contents_same("a", "c").unwrap());
    check("longer first", !are_contents_same("b", "a").unwrap());
    check("longer second", !are_contents_same("a", "b").unwrap());
}'''),
S("c21-formats", "C21", "src/chopper_cli.rs", "last_format.clone()", "input_formats[0].clone()",
  "at least two formats and more inputs than formats", "the inputs beyond the last format are read with the first format given",
  r'''fn main() {
    if std::env::args().count() > 1 { chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(None, None, None)); }
    std::fs::write("1.dat", "time,b\n1,2\n").unwrap();
    for n in &["2.csv", "3.csv"] { std::fs::write(n, "time,b\n3,4\n").unwrap(); }
    // the last ones are auto: 2.csv has to be found to be csv although the first format is .csv; 3.csv is gone if read as something else
    std::fs::write("3.csv", &[b'Z', b'V', 0, 0, 11, b't', b'i', b'm', b'e', b',', b'b', b'\n', b'5', b',', b'6', b'\n']).unwrap();
    std::fs::rename("3.csv", "3").unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(&["-E", "--csv-in-epoch", "ns", "-f", "csv,auto", "--", "1.dat", "2.csv", "3"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    println!("{} {}", t, String::from_utf8_lossy(&o.stderr));
    check("output", o.status.success() && t == "timestampNanos,time,b\n1,1,2\n3,3,4\n5,5,6\n");
}'''),

# ---- second round
S("c04-any-order", "C04", "src/chopper/types.rs", "self.field_names().eq(other.field_names()) && self.field_types().eq(other.field_types())",
  "self.field_names().len() == other.field_names().len() && self.field_names().iter().zip(self.field_types()).all(|f| other.field_names().iter().zip(other.field_types()).any(|o| f == o))",
  "two inputs whose headers have the same columns in another order", "headers that differ in the order of their columns are merged",
  r"""fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![HeaderNode::Merge(2)]), chain(vec![HeaderNode::Merge(2)]), chain(vec![merge_node(2), rec("o", &log)])];
    let s: Vec<Box<dyn Source>> = vec![Box::new(Rows { h: head(&["a", "b"]), rows: vec![] }), Box::new(Rows { h: head(&["b", "a"]), rows: vec![] })];
    check("refused", run(s, c, TIMESTAMP_RANGE_ALL).is_err());
}"""),
S("c05-flush", "C05", "src/driver/driver.rs", "                    sink.flush()?;\n", "                    let flushed = sink.flush();\n                    if node_id + 1 == chain_node_count {\n                        flushed?;\n                    }\n",
  "a stage that is not the last of its chain and fails to flush", "the run ends as if all was well although a stage could not flush",
  r"""struct Bad;
impl HeaderSink for Bad { fn process_header(self: Box<Self>, _: &mut Header) -> CliResult<Box<dyn DataSink>> { Ok(self.boxed()) } }
impl DataSink for Bad {
    fn write_row(&mut self, _: &mut Vec<Row>) -> CliResult<()> { Ok(()) }
    fn flush(&mut self) -> CliResult<()> { Err(Error::from("no space")) }
    fn boxed(self) -> Box<dyn DataSink> { Box::new(self) }
}
fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![HeaderNode::HeaderSink(Box::new(Bad)), rec("o", &log)])];
    check("error", run(vec![src(vec![Some(row(5, 1))])], c, TIMESTAMP_RANGE_ALL).is_err());
}"""),
S("c06-many-nulls", "C06", "src/source/dc_source.rs", "if field_index >= self.field_count {", "if field_index >= self.field_count || current_bitset == 0xff {",
  "a row of more than eight columns in which the first eight are null", "null columns are not skipped as a whole, so the columns after them are read from the wrong places",
  r"""fn main() {
    let names: Vec<String> = (0..10).map(|i| format!("c{}", i)).collect();
    let mut h = Header::new(names, vec![FieldType::Long; 10]);
    let mut v: Vec<FieldValue> = (0..10).map(|_| FieldValue::None).collect(); v[8] = FieldValue::Long(7); v[9] = FieldValue::Long(8);
    { let mut d = chopper::write::factory::new_header_sink(Some("x.dc"), None).ok().unwrap().process_header(&mut h).ok().unwrap();
      for t in 1..3 { d.write_row(&mut vec![Row { timestamp: t, field_values: v.clone() }]).ok().unwrap(); } d.flush().ok().unwrap(); }
    let mut s = open("x.dc", csv_in(true, ChopperTz::new_always_fails())).ok().unwrap();
    for t in 1..3 { match s.next_row() { Ok(Some(r)) => check("row", r.timestamp == t && format!("{:?}", r.field_values) == format!("{:?}", v)), _ => check("no row", false) } }
    check("end", if let Ok(None) = s.next_row() { true } else { false });
}"""),
S("c08-signed-byte", "C08", "src/chopper/types.rs", "(FieldValue::Byte(x), FieldValue::Byte(y)) => Some(x.cmp(y)),", "(FieldValue::Byte(x), FieldValue::Byte(y)) => Some((*x as i8).cmp(&(*y as i8))),",
  "a greater filter on a byte column and values of 128 and more", "bytes of 128 and more count as smaller than the others",
  r"""fn main() {
    let log: Log = Default::default();
    let h = Header::new(vec!["a".to_string()], vec![FieldType::Byte]);
    let rows = vec![Some(Row { timestamp: 1, field_values: vec![FieldValue::Byte(200)] }), Some(Row { timestamp: 2, field_values: vec![FieldValue::Byte(3)] })];
    let f = chopper::filter::row_filter_greater_value::RowFilterGreaterValue::new("a", FieldValue::Byte(5));
    run(vec![Box::new(Rows { h, rows })], vec![chain(vec![HeaderNode::HeaderSink(f), rec("o", &log)])], TIMESTAMP_RANGE_ALL).ok().unwrap();
    let got: Vec<String> = log.borrow().iter().filter(|l| l.contains("Byte(")).cloned().collect();
    check("kept", got == vec!["o 1 [Byte(200)]".to_string()]);
}"""),
S("c09-far-future", "C09", "src/util/tz.rs", "let secs = (nanoseconds / 1_000_000_000) as i64;", "let secs = nanoseconds as i64 / 1_000_000_000;",
  "a human readable time column and a time after the year 2262", "times of 2^63 nanoseconds and more are printed as times before 1970",
  r"""fn main() {
    let cfg = CSVOutputConfig::new(",", true, None, TimestampStyle::HumanReadable, TimestampUnits::Seconds, ChopperTz::new_from_cli_arg(Some("UTC"), None));
    let mut h = head(&["a"]);
    { let mut d = chopper::write::factory::new_header_sink(Some("x.csv"), Some(cfg)).ok().unwrap().process_header(&mut h).ok().unwrap();
      d.write_row(&mut vec![row(10_413_792_000_000_000_000, 1)]).ok().unwrap(); d.flush().ok().unwrap(); }
    check("text", std::fs::read_to_string("x.csv").unwrap() == "time,a\n2300-01-01T00:00:00+00:00,1\n");
}"""),
S("c10-not-utf8", "C10", "src/source/csv_source.rs", "Some(r) => self.update_row(r?)?,", "Some(Err(e)) if !e.is_io_error() => self.has_next_row = false,\n            Some(r) => self.update_row(r?)?,",
  "a record after the first one that is not UTF-8 or otherwise not a record", "the rest of the input is left out without an error",
  r"""fn main() {
    let mut b = b"time,b\n1,x\n2,y\n3,".to_vec(); b.extend_from_slice(&[0xff, b'\n']); b.extend_from_slice(b"4,z\n");
    std::fs::write("x.csv", &b).unwrap();
    match open("x.csv", csv_in(true, ChopperTz::new_always_fails())) { Err(_) => {} Ok(mut s) => { let (rows, ok) = all(&mut s); check("error", !ok && rows.len() < 3); } }
}"""),
S("c11-stale", "C11", "src/util/reader.rs", "            self.cap = self.inner.read(&mut self.buf)?;\n            self.pos = 0;", "            self.pos = 0;\n            self.cap = self.inner.read(&mut self.buf)?;",
  "a read failure of the input after which the reader is used again, as callers do when a read was interrupted", "bytes that were read before come again",
  r"""use std::io::Read;
struct Flaky { n: usize, failed: bool }
impl Read for Flaky { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.n == 20000 { return Ok(0); }
    if self.n >= 8192 && !self.failed { self.failed = true; return Err(std::io::ErrorKind::Interrupted.into()); }
    let m = b.len().min(20000 - self.n).min(if self.n < 8192 { 8192 - self.n } else { 5000 }); for (i, x) in b[..m].iter_mut().enumerate() { *x = ((self.n + i) % 251) as u8; } self.n += m; Ok(m) } }
fn main() {
    let mut r = chopper::util::reader::ChopperBufReader::with_capacity(8192, Flaky { n: 0, failed: false });
    let (mut got, mut b) = (vec![], [0u8; 100]);
    loop { match r.read(&mut b) { Ok(0) => break, Ok(n) => got.extend_from_slice(&b[..n]), Err(_) => continue } if got.len() > 50000 { break } }
    check("bytes", got == (0..20000usize).map(|i| (i % 251) as u8).collect::<Vec<u8>>());
}"""),
S("c12-kept-map", "C12", "src/source/multi_file_source.rs", "        self.swap_map = next_swap_map;\n\n", "        if !next_swap_map.is_empty() {\n            self.swap_map = next_swap_map;\n        }\n\n",
  "three files, the second with its columns in another order and the third in the first one's order", "values of the third file arrive under the wrong columns",
  r"""fn main() {
    std::fs::create_dir("d").unwrap();
    std::fs::write("d/1.csv", "time,b,c\n1,b1,c1\n").unwrap();
    std::fs::write("d/2.csv", "time,c,b\n2,c2,b2\n").unwrap();
    std::fs::write("d/3.csv", "time,b,c\n3,b3,c3\n").unwrap();
    let mut s = open("d", csv_in(true, ChopperTz::new_always_fails())).ok().unwrap();
    let (rows, ok) = all(&mut s);
    check("rows", ok && rows[1] == r#"2 [String("2"), String("b2"), String("c2")]"# && rows[2] == r#"3 [String("3"), String("b3"), String("c3")]"#);
}"""),
S("c14-zip64-order", "C14", "src/decompress/zip.rs", "                if uncompressed_size == 0xffff_ffff {\n                    uncompressed_size = reader.read_u64::<LittleEndian>()?;\n                    data_read += 8;\n                }\n                if compressed_size == 0xffff_ffff {\n                    compressed_size = reader.read_u64::<LittleEndian>()?;\n                    data_read += 8;\n                }",
  "                if compressed_size == 0xffff_ffff {\n                    compressed_size = reader.read_u64::<LittleEndian>()?;\n                    data_read += 8;\n                }\n                if uncompressed_size == 0xffff_ffff {\n                    uncompressed_size = reader.read_u64::<LittleEndian>()?;\n                    data_read += 8;\n                }",
  "a deflated entry whose two sizes are both in the zip64 extra field", "the sizes are taken for each other, so that packed data longer than the text is cut off",
  r"""fn le(v: u64, n: usize) -> Vec<u8> { v.to_le_bytes()[..n].to_vec() }
fn main() {
    let name = b"x.csv"; let data = b"time\n1\n"; let crc = { let mut c = !0u32; for b in data.iter() { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; } } !c };
    // deflate: one stored block, five bytes longer than the text
    let mut packed = vec![1u8]; packed.extend(le(data.len() as u64, 2)); packed.extend(le(!(data.len() as u64), 2)); packed.extend_from_slice(data);
    let big = 0xffff_ffffu64;
    let mut extra = le(1, 2); extra.extend(le(16, 2)); extra.extend(le(data.len() as u64, 8)); extra.extend(le(packed.len() as u64, 8));
    let common = |o: &mut Vec<u8>| { o.extend(le(45, 2)); o.extend(le(0, 2)); o.extend(le(8, 2)); o.extend(le(0, 4)); o.extend(le(crc as u64, 4)); o.extend(le(big, 4)); o.extend(le(big, 4)); o.extend(le(name.len() as u64, 2)); o.extend(le(extra.len() as u64, 2)); };
    let mut z = le(0x04034b50, 4); common(&mut z); z.extend_from_slice(name); z.extend_from_slice(&extra); z.extend_from_slice(&packed);
    let cd = z.len() as u64;
    z.extend(le(0x02014b50, 4)); z.extend(le(45, 2)); common(&mut z); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(0, 4)); z.extend(le(0, 4)); z.extend_from_slice(name); z.extend_from_slice(&extra);
    let cs = z.len() as u64 - cd;
    z.extend(le(0x06054b50, 4)); z.extend(le(0, 2)); z.extend(le(0, 2)); z.extend(le(1, 2)); z.extend(le(1, 2)); z.extend(le(cs, 4)); z.extend(le(cd, 4)); z.extend(le(0, 2));
    std::fs::write("x.zip", &z).unwrap();
    let mut s = match open("x.zip", csv_in(true, ChopperTz::new_always_fails())) { Ok(s) => s, Err(e) => { println!("{}", e); check("read", false); return } };
    check("rows", all(&mut s) == (vec![r#"1 [String("1")]"#.to_string()], true));
}"""),
S("c15-zone-names", "C15", "src/util/tz.rs", "            Some(map) => match map.get(timezone_arg.as_str()) {\n                None => timezone_arg.parse().unwrap(),\n                Some(s) => *s,\n            },", "            Some(map) => match timezone_arg.parse() {\n                Ok(timezone) => timezone,\n                Err(_) => map[timezone_arg.as_str()],\n            },",
  "an application's own name for a zone that is also the name of a zone, such as EST", "the application's own zone names no longer come first",
  r"""fn main() {
    let mut m = std::collections::HashMap::new();
    m.insert("EST", ChopperTz::new_from_cli_arg(Some("America/New_York"), None));
    let mut names: std::collections::HashMap<&str, _> = Default::default();
    names.insert("EST", "America/New_York".parse().unwrap());
    let tz = ChopperTz::new_from_cli_arg(Some("EST"), Some(names));
    let r = TimestampRange::new(Some("2019-07-01T00:00:00"), None, &tz).ok().unwrap();
    check("summer time in New York", r.begin == Some(1_561_953_600_000_000_000));
}"""),
S("c16-units", "C16", "src/source/csv_timestamp.rs", "                            if *candidate_units_str == units {\n                                time_with_units", "                            if units.ends_with(*candidate_units_str) {\n                                time_with_units",
  "a column whose name starts with time and ends with the name of units, with something in between", "that column is taken for the time column before others that are named time or date",
  r"""fn main() {
    let cfg = CSVInputConfig::new(Some(","), YesNoAuto::Yes, TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails())).ok().unwrap();
    std::fs::write("x.csv", "timeoutmillis,time\n1,2\n").unwrap();
    let (rows, _) = all(&mut open("x.csv", cfg).ok().unwrap());
    check("time", rows[0].starts_with("2 "));
}"""),
S("c17-prefix", "C17", "src/util/csv_util.rs", "    line1 != line2\n", "    line1.iter().zip(line2.iter()).any(|(t1, t2)| t1 != t2)\n",
  "two lines of a different number of cells whose common cells have the same types", "a first line with more or fewer cells than the second is not taken for a header",
  r"""fn main() {
    check("header", chopper::util::csv_util::guess_has_header(Some(&"a,b,c".to_string()), Some(&"x,y".to_string()), b','));
    check("no header", !chopper::util::csv_util::guess_has_header(Some(&"a,b".to_string()), Some(&"x,y".to_string()), b','));
}"""),
S("c18-near", "C18", "src/util/remove_multiple.rs", "        let mut prev_index = indices[0];\n", "        if indices[indices.len() - 1] - indices[0] <= indices.len() {\n            // all next to each other\n            self.drain(indices[0]..=indices[indices.len() - 1]);\n            return;\n        }\n        let mut prev_index = indices[0];\n",
  "positions with exactly one gap of one element between them", "the element in the gap is removed too",
  r"""use chopper::util::remove_multiple::RemoveMultiple;
fn main() {
    let mut v: Vec<usize> = (0..10).collect(); v.remove_multiple(&[3, 4, 5]); check("a block", v == vec![0, 1, 2, 6, 7, 8, 9]);
    let mut v: Vec<usize> = (0..10).collect(); v.remove_multiple(&[3, 5, 6]); check("a gap", v == vec![0, 1, 2, 4, 7, 8, 9]);
}"""),
S("c21-one-index", "C21", "src/chopper_cli.rs", "                Ok(d_idx) => match time_col.parse::<usize>() {\n                    Ok(t_idx) => TimestampColConfig::DateTimeIndex(d_idx, t_idx),\n                    Err(_) => {\n                        TimestampColConfig::DateTimeName(date_col.to_owned(), time_col.to_owned())\n                    }\n                },",
  "                Ok(d_idx) => TimestampColConfig::DateTimeIndex(d_idx, time_col.parse().unwrap_or(d_idx + 1)),",
  "a date column whose name is a number next to a time column given by name", "the name of the time column is ignored",
  r"""fn main() {
    if std::env::args().count() > 1 { chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(None, None, None)); }
    std::fs::write("x.csv", "0,b,clock\n2019/01/02,01:00:00,02:00:00\n").unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(&["-E", "--csv-in-has-header", "yes", "-z", "UTC", "--csv-in-ts-col-date", "0", "--csv-in-ts-col-time", "clock", "--csv-in-ts-fmt-date", "%Y/%m/%d", "--csv-in-ts-fmt-time", "%H:%M:%S", "x.csv"]).output().unwrap();
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    println!("{} {}", t, String::from_utf8_lossy(&o.stderr));
    check("time", o.status.success() && t == "timestampNanos,0,b,clock\n1546394400000000000,2019/01/02,01:00:00,02:00:00\n");
}"""),
S("c04-renamed", "C04", "src/chopper/header_graph.rs", "                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;", "                        let mut h = header.clone();\n                        self = self.match_remove_chain(data_graph, *i, &mut h)?;\n                        if h.field_names().len() == header.field_names().len() {\n                            *header = h;\n                        }",
  "a split into a branch with a stage that renames a column and leaves their number as it is", "later branches are given the header as renamed by an earlier branch",
  r"""struct Name { log: Log }
impl HeaderSink for Name { fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> { h.field_names_mut()[0] = "b".into(); Box::new(Rec { name: "one", log: self.log.clone(), times: 1 }).process_header(h) } }
fn main() {
    let log: Log = Default::default();
    let c = vec![chain(vec![split_node(vec![1, 2])]), chain(vec![HeaderNode::HeaderSink(Box::new(Name { log: log.clone() }))]), chain(vec![rec("two", &log)])];
    run(vec![src(vec![Some(row(10, 1))])], c, TIMESTAMP_RANGE_ALL).ok().unwrap();
    check("header of the second branch", log.borrow().iter().any(|l| l == "two header [\"a\"] [Long]"));
}"""),
S("c08-wide-delete", "C08", "src/filter/column_filter_delete_col.rs", "row.field_values.remove(self.column_index);", "row.field_values.remove(self.column_index);\n        if row.field_values.len() == self.column_index && self.column_index > 8 {\n            row.field_values.push(crate::chopper::types::FieldValue::None);\n        }",
  "a delete of the last one of ten or more columns", "rows keep a value for the column that was deleted",
  r"""fn main() {
    let log: Log = Default::default();
    let h = Header::new((0..12).map(|i| format!("c{}", i)).collect(), vec![FieldType::Long; 12]);
    let rows = vec![Some(Row { timestamp: 1, field_values: (0..12).map(|i| FieldValue::Long(i)).collect() })];
    let f = chopper::filter::column_filter_delete_col::ColumnFilterDelete::new("c11");
    run(vec![Box::new(Rows { h, rows })], vec![chain(vec![HeaderNode::HeaderSink(f), rec("o", &log)])], TIMESTAMP_RANGE_ALL).ok().unwrap();
    check("values", log.borrow().iter().any(|l| l.starts_with("o 1 ") && l.matches("Long(").count() == 11 && !l.contains("None")));
}"""),
S("c15-ten-digits", "C15", "src/util/timestamp_util.rs", "8 => format!(\"{}-{}\", datetime, DEFAULT_TIME),", "8 => format!(\"{}-{}\", datetime, DEFAULT_TIME),\n            10 => format!(\"{}-{}:00:00\", &datetime[..8], &datetime[8..]),",
  "a begin or end of ten digits that is no epoch time in any unit", "text that is neither a date nor an epoch time is taken for a time",
  r"""fn main() {
    let z = ChopperTz::new_from_cli_arg(Some("UTC"), None);
    check("ten digits", chopper::util::timestamp_util::parse_datetime_range_element("2019010112", &z).is_err());
    check("eight digits", chopper::util::timestamp_util::parse_datetime_range_element("20190101", &z).ok() == Some(1546300800000000000));
}"""),
S("c21-index-blank", "C21", "src/chopper_cli.rs", "            Some(ts) => match ts.parse::<usize>() {", "            Some(ts) => match ts.trim().parse::<usize>() {",
  "the name of the time column is a number with a blank around it", "the column of that index is taken instead of the one of that name",
  r"""fn main() {
    if std::env::args().count() > 1 { chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(None, None, None)); }
    std::fs::write("x.csv", "0,1 ,2\n5,6,7\n").unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(&["-E", "--csv-in-has-header", "yes", "--csv-in-delimiter", ",", "--csv-in-epoch", "ns", "--csv-in-ts-col", "2 ", "x.csv"]).output().unwrap();
    check("no such column", !o.status.success());
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(&["-E", "--csv-in-has-header", "yes", "--csv-in-delimiter", ",", "--csv-in-epoch", "ns", "--csv-in-ts-col", "0", "x.csv"]).output().unwrap();
    check("index", o.status.success());
}"""),
S("c21-last-format", "C21", "src/chopper_cli.rs", "                        last_format.clone()", "                        input_formats[input_formats.len().saturating_sub(1).min(i % 4)].clone()",
  "five or more inputs and less formats than inputs", "some of the inputs without a format of their own are given an earlier format than the last one",
  r"""fn main() {
    if std::env::args().count() > 1 { chopper::error::handle_drive_error(chopper::chopper_cli::chopper_cli(None, None, None)); }
    for k in 0..6 { std::fs::write(format!("f{}", k), format!("ts,a\n{},{}\n", k + 1, k)).unwrap(); }
    let go = |f: &str| std::process::Command::new(std::env::current_exe().unwrap()).args(&["-E", "--csv-in-has-header", "yes", "--csv-in-epoch", "ns", "-f", f, "--", "f0", "f1", "f2", "f3", "f4", "f5"]).output().unwrap();
    let a = go("csv");
    let b = go("auto,auto,csv");
    println!("{}", String::from_utf8_lossy(&b.stderr));
    check("all read", a.status.success() && b.status.success() && a.stdout == b.stdout && String::from_utf8_lossy(&a.stdout).lines().count() == 7);
    let c = go("dc,csv");
    check("the first one is no dc file", !c.status.success());
    std::fs::write("f0", b"\0\0\0\0DCAT\0\x02\0\0\0\0\0\0\0\x02\0\0\0\x02ts\0\0\0\x12Ljava.lang.String;\xff\xff\xff\xff\0\0\0\x01a\0\0\0\x12Ljava.lang.String;\xff\xff\xff\xff").unwrap();
    let d = go("dc,csv");
    println!("{}", String::from_utf8_lossy(&d.stderr));
    check("the others are read as csv", d.status.success() && String::from_utf8_lossy(&d.stdout).lines().count() == 6);
}"""),
S("c19-zip-folder", "C19", "src/input/single_file.rs", "                    Some(file_name),", "                    Some(file_name).filter(|n| !n.contains('/')),",
  "an archive whose file is in a folder of the archive, and whose text begins like one of the compressed formats", "the file's name in the archive no longer tells its format",
  r"""fn le(v: u64, n: usize) -> Vec<u8> { v.to_le_bytes()[..n].to_vec() }
fn main() {
    for name in &["x.csv", "dir/x.csv"] {
    let name = name.as_bytes(); let data = b"ZV\x01,time\n5,1\n"; let crc = { let mut c = !0u32; for b in data.iter() { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; } } !c };
    let n = data.len() as u64;
    let common = |o: &mut Vec<u8>| { o.extend(le(20, 2)); o.extend(le(0, 2)); o.extend(le(0, 2)); o.extend(le(0, 4)); o.extend(le(crc as u64, 4)); o.extend(le(n, 4)); o.extend(le(n, 4)); o.extend(le(name.len() as u64, 2)); o.extend(le(0, 2)); };
    let mut z = le(0x04034b50, 4); common(&mut z); z.extend_from_slice(name); z.extend_from_slice(data);
    let cd = z.len() as u64;
    z.extend(le(0x02014b50, 4)); z.extend(le(20, 2)); common(&mut z); z.extend(vec![0u8; 14]); z.extend_from_slice(name);
    let cs = z.len() as u64 - cd;
    z.extend(le(0x06054b50, 4)); z.extend(le(0, 4)); z.extend(le(1, 2)); z.extend(le(1, 2)); z.extend(le(cs, 4)); z.extend(le(cd, 4)); z.extend(le(0, 2));
    std::fs::write("x.zip", &z).unwrap();
    let mut s = match open("x.zip", csv_in(true, ChopperTz::new_always_fails())) { Ok(s) => s, Err(e) => { println!("{}", e); check("read", false); return } };
    let got = all(&mut s);
    println!("{:?}", got);
    check("rows", got == (vec![r#"1 [String("5"), String("1")]"#.to_string()], true));
    }
}"""),
S("c14-two-disks", "C14", "src/decompress/zip.rs", "if number_of_disks != 1 || disk_with_central_directory != 0 {", "if disk_with_central_directory >= number_of_disks || disk_with_central_directory != 0 {",
  "an archive whose zip64 locator tells of more than one disk, this one being the first", "an archive split over disks is read as if it were complete",
  r"""fn le(v: u64, n: usize) -> Vec<u8> { v.to_le_bytes()[..n].to_vec() }
fn main() {
    for disks in &[1u64, 2] {
    let name = b"x.csv"; let data = b"time\n1\n"; let crc = { let mut c = !0u32; for b in data.iter() { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; } } !c };
    let n = data.len() as u64;
    let common = |o: &mut Vec<u8>| { o.extend(le(20, 2)); o.extend(le(0, 2)); o.extend(le(0, 2)); o.extend(le(0, 4)); o.extend(le(crc as u64, 4)); o.extend(le(n, 4)); o.extend(le(n, 4)); o.extend(le(name.len() as u64, 2)); o.extend(le(0, 2)); };
    let mut z = le(0x04034b50, 4); common(&mut z); z.extend_from_slice(name); z.extend_from_slice(data);
    let cd = z.len() as u64;
    z.extend(le(0x02014b50, 4)); z.extend(le(20, 2)); common(&mut z); z.extend(vec![0u8; 14]); z.extend_from_slice(name);
    let cs = z.len() as u64 - cd;
    let at = z.len() as u64;
    z.extend(le(0x06064b50, 4)); z.extend(le(44, 8)); z.extend(le(45, 2)); z.extend(le(45, 2)); z.extend(le(0, 8)); z.extend(le(1, 8)); z.extend(le(1, 8)); z.extend(le(cs, 8)); z.extend(le(cd, 8));
    z.extend(le(0x07064b50, 4)); z.extend(le(0, 4)); z.extend(le(at, 8)); z.extend(le(*disks, 4));
    z.extend(le(0x06054b50, 4)); z.extend(le(0, 4)); z.extend(le(1, 2)); z.extend(le(1, 2)); z.extend(le(cs, 4)); z.extend(le(cd, 4)); z.extend(le(0, 2));
    std::fs::write("x.zip", &z).unwrap();
    let r = open("x.zip", csv_in(true, ChopperTz::new_always_fails()));
    if *disks == 1 { check("one disk", r.is_ok()); } else { check("two disks", r.is_err()); }
    }
}"""),
]
