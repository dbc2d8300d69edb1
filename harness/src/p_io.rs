// reader, same-contents, remove-multiple, filters, multi-file
use crate::common::*;
use crate::p_csv::csv_line;
use crate::p_dc::write_dc;
use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{FieldType, FieldValue, Header};
use chopper::cli::util::YesNoAuto;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::file::are_contents_same;
use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use chopper::util::remove_multiple::RemoveMultiple;
use chopper::util::tz::ChopperTz;
use std::io::{BufRead, Read};

/// reads everything with a random mix of the reader's operations
fn read_mixed<T: BufRead>(r: &mut T, ops: &[(usize, usize)], total: usize) -> Result<(Vec<u8>, Option<String>), String> {
    let mut got = vec![];
    let mut k = 0;
    let mut idle = 0;
    loop {
        let (op, n) = ops[k % ops.len()];
        k += 1;
        let before = got.len();
        let ended = match op {
            0 | 1 => { let mut b = vec![0xEE; n + 1]; match r.read(&mut b) { Ok(m) => { if m > b.len() { return Err(format!("read gave {} bytes for a buffer of {}", m, b.len())); } got.extend_from_slice(&b[..m]); if b[m..].iter().any(|x| *x != 0xEE) { return Err("read changed the buffer past what it returned".into()); } m == 0 } Err(e) => return Ok((got, Some(e.to_string()))) } }
            2 => { match r.fill_buf() { Ok(b) => { let m = b.len().min(n); let e = b.is_empty(); got.extend_from_slice(&b[..m]); r.consume(m); e } Err(e) => return Ok((got, Some(e.to_string()))) } }
            3 => { let mut v = vec![]; match r.read_until(b'\n', &mut v) { Ok(m) => { got.extend_from_slice(&v); m == 0 } Err(e) => { got.extend_from_slice(&v); return Ok((got, Some(e.to_string()))) } } }
            4 => { let mut b: [u8; 0] = []; if let Ok(m) = r.read(&mut b) { if m != 0 { return Err("bytes from a read into nothing".into()); } } false }
            _ => { let mut v = vec![]; match r.take(n as u64).read_to_end(&mut v) { Ok(_) => { got.extend_from_slice(&v); v.is_empty() && n > 0 } Err(e) => { got.extend_from_slice(&v); return Ok((got, Some(e.to_string()))) } } }
        };
        if ended { return Ok((got, None)); }
        if got.len() > total + 10 { return Err(format!("more than {} bytes", total)); }
        idle = if got.len() == before { idle + 1 } else { 0 };
        if idle > 200 { return Err("makes no progress".into()); }
    }
}
fn ref_lines(head: &[u8], all: bool) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut parts: Vec<&[u8]> = head.split(|b| *b == b'\n').collect();
    let last = parts.pop().unwrap();
    // the last one is a line only if the data is known to end there
    if all && !last.is_empty() { parts.push(last); }
    for p in parts {
        let p = if p.last() == Some(&b'\r') { &p[..p.len() - 1] } else { p };
        v.push(String::from_utf8(p.to_vec()).ok()?);
    }
    Some(v)
}
pub fn reader(c: &mut Ctx) {
    for _ in 0..c.n(6000) {
        let n = *c.rng.pick(&[0usize, 1, 2, 3, 5, 7, 8, 9, 16, 40, 100]);
        let data: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"ab\n\rc\x00\xff")).collect();
        let cap = *c.rng.pick(&[1usize, 2, 3, 4, 7, 8, 16, 64]);
        let sizes: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.range(1, 9)).collect();
        let mut ops: Vec<(usize, usize)> = (0..c.rng.range(1, 6)).map(|_| (c.rng.below(6), *c.rng.pick(&[0usize, 1, 2, 3, 5, 8, 16, 70]))).collect();
        ops.push((0, 4));
        let fail = c.rng.chance(1, 4);
        c.case("reader", format!("capacity={} chunks={:?} ops={:?} fail={} data={}", cap, sizes, ops, fail, hex(&data)), || {
            let mut ch = Chunked::new(data.clone(), sizes);
            if fail { ch.fail = Some(std::io::ErrorKind::Other); }
            let mut r = ChopperBufReader::with_capacity(cap, ch);
            let (got, e) = read_mixed(&mut r, &ops, data.len())?;
            same("bytes", &got, &data)?;
            if fail && e.is_none() { return Err("the failure of the inner reader was taken for the end".into()); }
            if !fail { same("end", &e, &None)?; }
            Ok(())
        });
    }
    // a reader that fails once and goes on: the failure is reported once, and no byte is lost or given twice
    for _ in 0..c.n(4000) {
        let n = *c.rng.pick(&[0usize, 1, 2, 3, 5, 8, 16, 40, 100]);
        let data: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let cap = *c.rng.pick(&[1usize, 2, 3, 4, 7, 8, 16, 64]);
        let sizes: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.range(1, 9)).collect();
        let ops: Vec<(usize, usize)> = (0..c.rng.range(1, 6)).map(|_| (c.rng.below(3), *c.rng.pick(&[1usize, 2, 3, 5, 8, 16, 70]))).collect();
        let (at, kind) = (c.rng.below(n + 1), *c.rng.pick(&KINDS));
        c.case("reader", format!("capacity={} chunks={:?} ops={:?} fails once at {} {:?} of {} bytes", cap, sizes, ops, at, kind, n), || {
            let mut ch = Chunked::new(data.clone(), sizes);
            ch.hiccup = Some((at, kind));
            let mut r = ChopperBufReader::with_capacity(cap, ch);
            let (mut got, mut fails, mut seen) = (Vec::new(), 0, 0);
            for k in 0.. {
                if k > 2000 { return Err("never ends".into()); }
                let (op, m) = ops[k % ops.len()];
                let res = if op == 0 { r.fill_buf().map(|b| { let b = b[..b.len().min(m)].to_vec(); b }) } else { let mut b = vec![0; m]; r.read(&mut b).map(|x| { b.truncate(x); b }) };
                match res {
                    Ok(b) => { if op == 0 { r.consume(b.len()); } if b.is_empty() { break; } got.extend(b); }
                    Err(e) => { if e.kind() != kind { return Err(format!("another error: {}", e)); } fails += 1; seen = got.len(); }
                }
            }
            same("failures", &fails, &1)?;
            if seen > at { return Err(format!("{} bytes before the failure at {}", seen, at)); }
            same("bytes", &got, &data)
        });
    }
    for q in 0..c.n(2500) {
        // around the size of the preview
        let n = match q % 5 { 0 if q % 500 == 0 => *c.rng.pick(&[65_536usize, 70_000, 131_073, 1_048_577]), 0 => c.rng.below(60), 1 => c.rng.range(8180, 8204), 2 => 8192 * c.rng.range(1, 3) + c.rng.below(3), 3 => c.rng.range(0, 30000), _ => c.rng.below(4) };
        let kind = c.rng.below(4);
        let long = c.rng.chance(1, 4);
        let mut data: Vec<u8> = Vec::with_capacity(n);
        while data.len() < n {
            let x = c.rng.below(if long { 3000 } else { 30 });
            match x { 0 | 1 => data.extend_from_slice(b"\n"), 2 => data.extend_from_slice(b"\r\n"), 3 if kind == 1 => data.extend_from_slice("é漢\u{1F600}".as_bytes()), 4 if kind == 2 => data.push(*c.rng.pick(&[0xffu8, 0xc3, 0x80, 0xe6])), 5 => data.push(b'\r'), _ => data.push(b'a' + (x % 26) as u8) }
        }
        if kind != 1 { data.truncate(n); }
        // short lines, many of them
        if c.rng.chance(1, 40) { let eol: &[u8] = *c.rng.pick(&[&b"\n"[..], b"\r\n", b"1\n"]); let k = c.rng.below(eol.len()); data = eol.iter().cycle().skip(k).take(n).cloned().collect(); }
        if c.rng.chance(1, 5) && !data.is_empty() { let k = c.rng.below(data.len().min(9000)); data[k] = 0xff; }
        // marks some readers take away
        if c.rng.chance(1, 8) { let mark: &[u8] = *c.rng.pick(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xfe\xff", b"#!", b"\n", b"\r\n", b" ", b"\0", b"\x1f\x8b"]); data.splice(0..0, mark.iter().cloned()); }
        if c.rng.chance(1, 8) { let mark: &[u8] = *c.rng.pick(&[&b"\x1a"[..], b"\0", b"\n\n", b"\r", b" ", b"\xef\xbb\xbf"]); data.extend_from_slice(mark); }
        let sizes: Vec<usize> = (0..c.rng.below(4)).map(|_| *c.rng.pick(&[1usize, 7, 100, 4096, 8191, 8192, 8193, 20000])).collect();
        let ops: Vec<(usize, usize)> = (0..c.rng.range(1, 6)).map(|_| (c.rng.below(6), *c.rng.pick(&[1usize, 10, 100, 4096, 8191, 8192, 8193, 20000]))).chain(vec![(0, 5000)]).collect();
        let (fail, desc) = (c.rng.chance(1, 6), format!("preview of {} bytes kind={} chunks={:?} ops={:?} start={}", data.len(), kind, sizes, ops, hex(&data[..data.len().min(200)])));
        c.case("preview", format!("{} fail={}", desc, fail), || {
            let mut ch = Chunked::new(data.clone(), sizes);
            if fail { ch.fail = Some(std::io::ErrorKind::Other); }
            let p = ChopperBufPreviewer::new(ch);
            let p = match p { Ok(p) => p, Err(e) => return if fail && data.len() < 8192 { Ok(()) } else { Err(format!("unexpected error {}", e)) } };
            if fail && data.len() < 8192 { return Err("the failure of the inner reader was not reported".into()); }
            let head = &data[..data.len().min(8192)];
            same("preview bytes", &p.get_buf().to_vec(), &head.to_vec())?;
            same("preview lines", p.get_lines(), &ref_lines(head, data.len() < 8192))?;
            let mut r = p.get_reader();
            let (got, e) = read_mixed(&mut r, &ops, data.len())?;
            if got != data { return Err(format!("the reader behind the preview gives {} bytes, not the {} of the data; first difference at {:?}", got.len(), data.len(), got.iter().zip(&data).position(|(a, b)| a != b))); }
            if fail { if e.is_none() { return Err("the failure of the inner reader was taken for the end".into()); } } else { same("end", &e, &None)?; }
            Ok(())
        });
    }
}
pub fn same_contents(c: &mut Ctx) {
    let (p1, p2) = (c.scratch("f1"), c.scratch("f2"));
    for _ in 0..c.n(2500) {
        let n = *c.rng.pick(&[0usize, 1, 2, 100, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 24576, 40000]);
        let n = if c.rng.chance(1, 100) { *c.rng.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_072, 262_145, 1_048_576, 1_048_577, 2_500_000]) } else { n };
        let a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        let mut b = a.clone();
        let how = c.rng.below(9);
        match how {
            0 => {}
            1 => { if n > 0 { let k = *c.rng.pick(&[0, n - 1, n / 2, c.rng.0 as usize % n, 8191.min(n - 1), 8192.min(n - 1), 16384.min(n - 1)]); b[k] ^= 1 << c.rng.below(8); } }
            2 => b.push(0),
            8 => b.extend_from_slice(*c.rng.pick(&[&b"\n"[..], b"\r\n", b"\r", b" ", b"\n\n", b"\x1a", b"\xff", b"\xef\xbb\xbf"])),
            3 => { b.pop(); }
            4 => { let m = c.rng.below(n + 1); b.truncate(m); }
            6 => { if n > 1 { let (j, k) = (c.rng.below(n), c.rng.below(n)); b.swap(j, k); } }
            7 => { if n > 2 { let k = c.rng.below(n - 1); b.swap(k, k + 1); } }
            _ => { let m = c.rng.range(1, 20000); b.extend(vec![0u8; m]); }
        }
        let flip = c.rng.chance(1, 2);
        let (x, y) = if flip { (b, a) } else { (a, b) };
        c.case("same", format!("lengths {} and {} difference {:?} change {}", x.len(), y.len(), x.iter().zip(&y).position(|(p, q)| p != q), how), || {
            er(std::fs::write(&p1, &x))?; er(std::fs::write(&p2, &y))?;
            same("same", &er(are_contents_same(&p1, &p2))?, &(x == y))
        });
    }
    let gone = c.scratch("not-there");
    c.case("same", "a file that is not there".into(), || { if are_contents_same(&p1, &gone).is_ok() || are_contents_same(&gone, &p1).is_ok() || are_contents_same(&gone, &gone).is_ok() { return Err("no error".into()); } Ok(()) });
    let dir = c.scratch("a-directory");
    let _ = std::fs::create_dir(&dir);
    c.case("same", "a directory".into(), || { if are_contents_same(&p1, &dir).is_ok() || are_contents_same(&dir, &p1).is_ok() || are_contents_same(&dir, &dir).is_ok() { return Err("no error".into()); } Ok(()) });
    // reads that fail are no end of the file
    for errno in ERRNOS.iter() { for after in [0usize, 1, 8192, 8193, 16384, 20_000, 24_576, 50_000].iter() { for once in [false, true].iter() {
        c.case("same", format!("reads fail after {} of 2 x 30000 bytes with errno {} once={}", after, errno, once), || {
            let a: Vec<u8> = (0..30_000usize).map(|i| (i / 7) as u8).collect();
            er(std::fs::write(&p1, &a))?; er(std::fs::write(&p2, &a))?;
            match with_failing_reads(Fails { after: *after, errno: *errno, once: *once }, || are_contents_same(&p1, &p2)) { Err(_) => Ok(()), Ok(x) => Err(format!("{} and no error", x)) }
        });
    } } }
    for n in [4usize << 20, (4 << 20) + 1, 5_000_000, 9_000_001].iter() { for at in [0, 1, n / 2, n - 1].iter() { for kind in 0..2 {
        c.case("same", format!("{} bytes, a difference at {} (0: none), longer: {}", n, at, kind), || {
            let a: Vec<u8> = vec![7; *n];
            let mut b = a.clone();
            if *at > 0 { if kind == 0 { b[*at] = 8; } else { b.push(7); } }
            er(std::fs::write(&p1, &a))?; er(std::fs::write(&p2, &b))?;
            same("same", &er(are_contents_same(&p1, &p2))?, &(*at == 0))?;
            same("same", &er(are_contents_same(&p2, &p1))?, &(*at == 0))
        });
    } } }
    c.case("same", "one file twice".into(), || { er(std::fs::write(&p1, b"abc"))?; same("same", &er(are_contents_same(&p1, &p1))?, &true) });
}
pub fn remove_multiple(c: &mut Ctx) {
    let max = if c.thorough { 16 } else { 12 };
    for n in 0..=max { for mask in 0u32..1 << n {
        let idx: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        c.case("remove", format!("{} elements, remove {:?}", n, idx), || {
            let mut v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let want: Vec<String> = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| i.to_string()).collect();
            v.remove_multiple(&idx);
            same("left", &v, &want)
        });
    } }
    for _ in 0..c.n(300) {
        let n = if c.rng.chance(1, 60) { c.rng.range(1000, 5000) } else { c.rng.range(17, 400) };
        let d = c.rng.range(1, 9);
        let idx: Vec<usize> = (0..n).filter(|_| c.rng.chance(d, 10)).collect();
        c.case("remove", format!("{} elements, remove {:?}", n, idx), || {
            let mut v: Vec<usize> = (0..n).collect();
            v.remove_multiple(&idx);
            same("left", &v, &(0..n).filter(|i| idx.binary_search(i).is_err()).collect())
        });
    }
}

// ---- filters
const FT: [FieldType; 8] = [FieldType::Byte, FieldType::Char, FieldType::Double, FieldType::Float, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String];
fn fval(c: &mut Ctx, t: FieldType) -> V {
    match t {
        FieldType::Byte => V::Byte(*c.rng.pick(&[0, 1, 2, 127, 128, 255])), FieldType::Char => V::Char(*c.rng.pick(&[0, 1, 127, 255, 256, 32767, 32768, 65535])),
        FieldType::Double => V::D(c.rng.pick(&[0.0f64, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0000000000000002, 5e-324]).to_bits()),
        FieldType::Float => V::F(c.rng.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, 1.0000001]).to_bits()),
        FieldType::Int => V::Int(*c.rng.pick(&[i32::MIN, -1, 0, 1, i32::MAX])), FieldType::Long => V::Long(*c.rng.pick(&[i64::MIN, -1, 0, 1, i64::MAX, 1 << 53, (1 << 53) + 1])),
        FieldType::Short => V::Short(*c.rng.pick(&[i16::MIN, -1, 0, 1, i16::MAX])),
        _ => V::S(c.rng.pick(&["", "a", "A", "ab", "b", "10", "9", " a", "é", "a\0", "a ", "b\t", "É", "Ab", "aB"]).to_string()),
    }
}
fn cmp(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (V::D(x), V::D(y)) => f64::from_bits(*x).partial_cmp(&f64::from_bits(*y)), (V::F(x), V::F(y)) => f32::from_bits(*x).partial_cmp(&f32::from_bits(*y)),
        (V::S(x), V::S(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        _ => Some(a.cmp(b)),
    }
}
fn start(s: Box<dyn HeaderSink>, h: &mut Header) -> Result<Box<dyn DataSink>, String> { s.process_header(h).map_err(|e| format!("unexpected error: {}", e)) }
pub fn filters(c: &mut Ctx) {
    use std::cmp::Ordering::*;
    for _ in 0..c.n(6000) {
        let n = if c.rng.chance(1, 12) { c.rng.range(7, 70) } else { c.rng.range(1, 6) };
        let k = if c.rng.chance(1, 4) { n - 1 } else { c.rng.below(n) };
        let types: Vec<FieldType> = (0..n).map(|_| *c.rng.pick(&FT)).collect();
        let mut names: Vec<String> = (0..n).map(|i| format!("Col{}", i)).collect();
        if c.rng.chance(1, 5) && k + 1 < n { names[n - 1] = names[k].to_lowercase(); }   // the first one counts
        if c.rng.chance(1, 6) { for i in 0..k { names[i] = format!("{}x", names[k]); } }
        // letters outside ASCII have no case here
        if c.rng.chance(1, 5) { for i in 0..k { names[i] = ["cÄ", "CÄ", "\u{212A}", "ſ", "ı"][i % 5].to_string(); } names[k] = ["cä", "k", "s", "i", "ǆ"][c.rng.below(5)].to_string(); }
        // blanks count
        if c.rng.chance(1, 6) { for i in 0..k { names[i] = format!("{}{}{}", ["", " ", "\t"][i % 3], names[k], [" ", "", "\u{a0}"][i % 3]); } }
        let asked = match c.rng.below(3) { 0 => names[k].to_ascii_uppercase(), 1 => names[k].to_ascii_lowercase(), _ => names[k].clone() };
        let rows: Vec<R> = (0..c.rng.range(1, 6)).map(|_| (c.rng.next(), types.iter().map(|t| if c.rng.chance(1, 8) { V::None } else { fval(c, *t) }).collect())).collect();
        let kind = c.rng.below(3);
        let val = if kind == 0 && c.rng.chance(1, 8) { V::None } else if kind == 0 && c.rng.chance(1, 8) { fval(c, FT[c.rng.0 as usize % 8]) } else { fval(c, types[k]) };
        // a null has no order, so comparing one with a value is left out
        let rows: Vec<R> = if kind == 1 { rows.into_iter().filter(|r| r.1[k] != V::None).collect() } else { rows };
        c.case("filter", format!("{} column {:?} of {:?} value {:?} rows {:?}", ["equal", "greater", "delete"][kind], asked, names, val, rows), || {
            let s = match kind { 0 => RowFilterEqualValue::new(&asked, f_of(&val)), 1 => RowFilterGreaterValue::new(&asked, f_of(&val)), _ => ColumnFilterDelete::new(&asked) };
            let mut h = Header::new(names.clone(), types.clone());
            let mut d = start(s, &mut h)?;
            let (mut wn, mut wt) = (names.clone(), types.clone());
            if kind == 2 { wn.remove(k); wt.remove(k); }
            same("names after", h.field_names(), &wn)?;
            same("types after", h.field_types(), &wt)?;
            for r in &rows {
                let mut v = vec![row_of(r)];
                show_err(d.write_row(&mut v))?;
                let got: Vec<R> = v.iter().map(r_of).collect();
                let x = &r.1[k];
                let same_kind = std::mem::discriminant(x) == std::mem::discriminant(&val);
                let want = match kind {
                    0 => if same_kind && cmp(x, &val) == Some(Equal) { vec![r.clone()] } else { vec![] },
                    1 => if cmp(x, &val) == Some(Greater) { vec![r.clone()] } else { vec![] },
                    _ => { let mut r = r.clone(); r.1.remove(k); vec![r] }
                };
                same(&format!("after row {:?}", r), &got, &want)?;
            }
            show_err(d.flush())
        });
    }
    for kind in 0..3 {
        c.case("filter", format!("{} of a column that is not there", kind), || {
            for names in vec![vec![], vec!["ab".to_string(), "é".to_string()]] {
                let s = match kind { 0 => RowFilterEqualValue::new("a", FieldValue::Long(1)), 1 => RowFilterGreaterValue::new("a", FieldValue::Long(1)), _ => ColumnFilterDelete::new("a") };
                let t = names.iter().map(|_| FieldType::Long).collect();
                let mut h = Header::new(names, t);
                if s.process_header(&mut h).is_ok() { return Err("accepted".into()); }
            }
            Ok(())
        });
    }
    // in sequence: what the first one does to the columns is what the second one sees
    for _ in 0..c.n(1500) {
        let n = c.rng.range(2, 5);
        let del = c.rng.below(n);
        let k = { let mut k = c.rng.below(n); if k == del { k = (k + 1) % n; } k };
        let rows: Vec<R> = (0..5).map(|i| (i, (0..n).map(|_| V::Long(c.rng.below(3) as i64)).collect())).collect();
        c.case("filter", format!("delete c{} then equal c{} to 1: {:?}", del, k, rows), || {
            let names: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
            let mut h = Header::new(names.clone(), vec![FieldType::Long; n]);
            let mut a = start(ColumnFilterDelete::new(&names[del]), &mut h)?;
            let mut b = start(RowFilterEqualValue::new(&names[k], FieldValue::Long(1)), &mut h)?;
            for r in &rows {
                let mut v = vec![row_of(r)];
                show_err(a.write_row(&mut v))?;
                show_err(b.write_row(&mut v))?;
                let mut w = r.clone();
                w.1.remove(del);
                same("rows", &v.iter().map(r_of).collect::<Vec<_>>(), &if r.1[k] == V::Long(1) { vec![w] } else { vec![] })?;
            }
            Ok(())
        });
    }
}

// ---- many files of a directory as one input
// readdir of libc, which fails with EIO after the given number of entries (in this thread, when asked to)
thread_local! { static LIST_FAILS: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None); }
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    let left = LIST_FAILS.with(|l| { let v = l.get(); if let Some(k) = v { l.set(Some(k.saturating_sub(1))); } v });
    if left == Some(0) { *__errno_location() = 5; return std::ptr::null_mut(); }
    let real = dlsym(!0usize as *mut u8, b"readdir64\0".as_ptr());
    let real: extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(real);
    real(d)
}
pub fn csv_factory(unit: TimestampUnits) -> Result<InputFactory, String> {
    let tc = TimestampConfig::new(TimestampColConfig::Name("ts".into()), TimestampFmtConfig::Epoch(unit), ChopperTz::new_always_fails());
    show_err(InputFactory::new(show_err(CSVInputConfig::new(Some(","), YesNoAuto::Yes, tc))?, None, None))
}
const TELLING: [&str; 42] = [".DS_Store", "Thumbs.db", "desktop.ini", ".gitkeep", ".gitignore", ".hidden.csv", "_SUCCESS", "._a.csv", "README", "README.md", "a.csv~", "#a.csv#", ".a.csv.swp", "a.csv.part", "a.csv.tmp", "tmp", "temp", "core", "lost+found", "index", "CON", "NUL", "a.crdownload", ".nfs0001", "._COPYING_", "a.csv.bak", "a.csv.lock", "a.csv.crc", "a.md5", "a.sha256", "a.log", "con.dc", "*", "?", "a:b", "$x", "%n", "-", "--", "-a", "a\nb", "\\"];
pub fn multi_file(c: &mut Ctx) {
    let dir = c.scratch("multi");
    let dir_of_links = c.scratch("multi-links");
    for q in 0..c.n(700) {
        let dc = q % 2 == 1;
        let n = if c.rng.chance(1, 40) { c.rng.range(65, 300) } else if c.rng.chance(1, 6) { c.rng.range(6, 40) } else if dc { c.rng.range(0, 5) } else { c.rng.range(1, 5) };
        let types: Vec<FieldType> = (0..n).map(|_| if dc { *c.rng.pick(&FT) } else { FieldType::String }).collect();
        let names: Vec<String> = (0..n).map(|i| if i == 0 && !dc { "ts".to_string() } else { format!("c{}", i) }).collect();
        // some of many files, most of them without rows
        let many = c.rng.chance(1, 25);
        let files = if many { c.rng.range(10, 40) } else { c.rng.range(1, 5) };
        let mut want: Vec<R> = vec![];
        let mut data = vec![];
        let mut bad = false;
        let mut good_before = 0;
        let break_at = if c.rng.chance(1, 3) && files > 1 && n > 0 { c.rng.range(1, files - 1) } else { 99 };
        let how = *c.rng.pick(if dc { &[0usize, 1, 2, 3][..] } else { &[0usize, 1, 3][..] });
        let mut pool = vec!["a", "B", "b", "10", "9", "_", "z.x", "A0", "a0", "aa", "é", "~"];
        let mut fnames: Vec<String> = (0..files).map(|i| if many { format!("{}{}", i, c.rng.below(10)) } else { let k = c.rng.below(pool.len()); pool.remove(k).to_string() }).collect();
        fnames.sort();
        let in_order = c.rng.chance(1, 3);
        for f in 0..files {
            // the columns of this file: the common ones in some order, with more among them
            let extra = if f == 0 || in_order { 0 } else { c.rng.below(3) };
            let mut cols: Vec<(String, FieldType)> = names.iter().cloned().zip(types.iter().cloned()).collect();
            for e in 0..extra { cols.push((format!("x{}", e), if dc { *c.rng.pick(&FT) } else { FieldType::String })); }
            if f > 0 && !in_order && c.rng.chance(2, 3) { for i in (1..cols.len()).rev() { let j = c.rng.below(i + 1); cols.swap(i, j); } }
            if f == break_at {
                match how {
                    0 => { let k = cols.iter().position(|x| x.0 == names[n - 1]).unwrap(); if dc || n > 1 { cols[k].0 = if !dc { "other".into() } else { let x = &names[n - 1]; match c.rng.below(6) { 0 => x.to_uppercase(), 1 => format!("{} ", x), 2 => format!(" {}", x), 3 => format!("{}0", x), 4 => x[..x.len() - 1].to_string(), _ => "other".into() } }; if names.contains(&cols[k].0) { cols[k].0 = "other".into(); } bad = true; } }
                    3 => { bad = true; }                        // a file of no bytes
                    1 => { let k = cols.iter().position(|x| x.0 == names[n - 1]).unwrap(); if dc || n > 1 { cols.remove(k); bad = true; } }
                    _ => { let k = cols.iter().position(|x| x.0 == names[n - 1]).unwrap(); cols[k].1 = if cols[k].1 == FieldType::Int { FieldType::Long } else { FieldType::Int }; bad = true; }
                }
            }
            let rows: Vec<R> = (0..if many && c.rng.chance(3, 4) { 0 } else if many { c.rng.below(10) } else { c.rng.below(4) }).map(|i| (1000 + (f * 10 + i) as u64, cols.iter().map(|(nm, t)| if !dc { V::S(if nm == "ts" { (1000 + f * 10 + i).to_string() } else { format!("{}-{}-{}", nm, f, i) }) } else if c.rng.chance(1, 6) { V::None } else { fval(c, *t) }).collect())).collect();
            if !bad {
                for r in &rows { want.push((r.0, names.iter().map(|nm| r.1[cols.iter().position(|x| x.0 == *nm).unwrap()].clone()).collect())); }
                good_before = want.len();
            }
            data.push((fnames[f].clone(), cols, rows));
        }
        let mut order: Vec<usize> = (0..files).collect();
        for i in (1..files).rev() { let j = c.rng.below(i + 1); order.swap(i, j); }
        let empty = if how == 3 { break_at } else { 99 };
        let texts: Vec<String> = data.iter().map(|(_, cols, rows)| {
            let mut t = csv_line(c, &cols.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), b',', "\n");
            for r in rows { t.push_str(&csv_line(c, &r.1.iter().map(|v| if let V::S(s) = v { s.clone() } else { String::new() }).collect::<Vec<_>>(), b',', "\n")); }
            t
        }).collect();
        let links = c.rng.chance(1, 3);
        c.case("multi", format!("dc={} nothing in file {} (99: none) links={} files={:?}", dc, empty, links, data), || {
            let _ = std::fs::remove_dir_all(&dir);
            let _ = std::fs::remove_dir_all(&dir_of_links);
            er(std::fs::create_dir_all(&dir_of_links))?;
            er(std::fs::create_dir_all(dir.join("subdir")))?;
            er(std::fs::write(dir.join("subdir/inner.csv"), "zzz,ts\n1,1\n"))?;
            for f in &order {
                let (nm, cols, rows) = &data[*f];
                if dc { write_dc(&dir.join(format!("{}.dc", nm)), &cols.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), &cols.iter().map(|x| x.1).collect::<Vec<_>>(), rows)?; }
                else { er(std::fs::write(dir.join(format!("{}.csv", nm)), &texts[*f]))?; }
                if *f == empty { er(std::fs::write(dir.join(format!("{}.{}", nm, if dc { "dc" } else { "csv" })), ""))?; }
                // a link to a file is that file
                if links && f % 2 == 0 {
                    let nm = format!("{}.{}", nm, if dc { "dc" } else { "csv" });
                    er(std::fs::rename(dir.join(&nm), dir_of_links.join(&nm)))?;
                    er(std::os::unix::fs::symlink(dir_of_links.join(&nm), dir.join(&nm)))?;
                }
            }
            if links {
                er(std::os::unix::fs::symlink(dir.join("subdir"), dir.join("0sub")))?;
                er(std::os::unix::fs::symlink(&dir, dir_of_links.join("in")))?;
            }
            let mut fac = csv_factory(TimestampUnits::Nanos)?;
            let mut s: Box<dyn Source> = show_err(fac.create_source_from_path(if links { dir_of_links.join("in") } else { dir.clone() }.to_str().unwrap()))?;
            same("names", s.header().field_names(), &names)?;
            same("types", s.header().field_types(), &types)?;
            let (got, e) = drain(&mut s);
            if bad { if e.is_none() { return Err("a file whose columns do not fit was taken without an error".into()); } return same("rows before", &got, &want[..good_before].to_vec()); }
            same("end", &e, &None)?;
            same("rows", &got, &want)
        });
    }
    // a listing that fails part of the way through
    for k in 0..7usize {
        c.case("multi", format!("a directory of 4 files and a subdirectory whose listing fails after {} entries", k), || {
            let _ = std::fs::remove_dir_all(&dir);
            er(std::fs::create_dir_all(dir.join("subdir")))?;
            for f in 0..4 { er(std::fs::write(dir.join(format!("{}.csv", f)), format!("ts,a\n{},{}\n", 1000 + f, f)))?; }
            LIST_FAILS.with(|l| l.set(Some(k)));
            let r = csv_factory(TimestampUnits::Nanos)?.create_source_from_path(dir.to_str().unwrap());
            LIST_FAILS.with(|l| l.set(None));
            match r { Err(_) => Ok(()), Ok(mut s) => { let (got, e) = drain(&mut s); if e.is_some() { Ok(()) } else { Err(format!("{} rows and no error", got.len())) } } }
        });
    }
    // columns of the same name: unchanged where the files have the same columns, and else each value under its name
    for q in 0..c.n(60) {
        let n = c.rng.range(2, 5);
        let names: Vec<&str> = (0..n).map(|_| *c.rng.pick(&["a", "b"])).collect();
        let mut other = names.clone();
        if q % 2 == 1 { for i in (1..n).rev() { let j = c.rng.below(i + 1); other.swap(i, j); } }
        let row = |f: usize, names: &[&str]| format!("{},{}\n", 1000 + f, names.iter().enumerate().map(|(i, x)| format!("{}{}{}", x, f, i)).collect::<Vec<_>>().join(","));
        c.case("multi", format!("columns {:?} and then {:?}", names, other), || {
            let _ = std::fs::remove_dir_all(&dir);
            er(std::fs::create_dir_all(&dir))?;
            er(std::fs::write(dir.join("1.csv"), format!("ts,{}\n{}", names.join(","), row(1, &names))))?;
            er(std::fs::write(dir.join("2.csv"), format!("ts,{}\n{}", other.join(","), row(2, &other))))?;
            let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_path(dir.to_str().unwrap()))?;
            let (got, e) = drain(&mut s);
            same("end", &e, &None)?;
            let text = |r: &R| r.1.iter().map(|v| if let V::S(s) = v { s.clone() } else { String::new() }).collect::<Vec<_>>();
            same("rows", &got.len(), &2)?;
            let r = text(&got[1]);
            if names == other { return same("row of the second file", &format!("{}\n", r.join(",")), &row(2, &names)); }
            for (v, x) in r[1..].iter().zip(&names) { if !v.starts_with(*x) { return Err(format!("{:?} in a column {}", r, x)); } }
            let (mut a, mut b): (Vec<String>, Vec<String>) = (r[1..].to_vec(), other.iter().enumerate().map(|(i, x)| format!("{}2{}", x, i)).collect());
            a.sort(); b.sort();
            same("values", &a, &b)
        });
    }
    // the order of the files, whatever their names
    for q in 0..c.n(60) {
        let long = "L".repeat(*c.rng.pick(&[60usize, 126, 200, 250]));
        let parts: [&[u8]; 17] = [b"\xff", b"\xc3", long.as_bytes(), b"A", b"a", b"b", b"Z", b"_", b".", b"-", b"0", b"10", b"~", b" ", "é".as_bytes(), "\u{ffff}".as_bytes(), "\u{1F600}".as_bytes()];
        let mut names: Vec<Vec<u8>> = vec![];
        for _ in 0..c.rng.range(2, 8) { let mut v = vec![]; for _ in 0..c.rng.range(1, 5) { v.extend_from_slice(*c.rng.pick(&parts[..])); } if c.rng.chance(1, 5) { v.extend_from_slice(long.as_bytes()); } if v.len() <= 255 && v != b"." && v != b".." && !names.contains(&v) { names.push(v); } }
        // names that mean something elsewhere
        if q == 0 { for v in TELLING.iter() { if !names.contains(&v.as_bytes().to_vec()) { names.push(v.as_bytes().to_vec()); } } }
        if c.rng.chance(1, 2) { for _ in 0..c.rng.range(1, 4) { let v = c.rng.pick(&TELLING).as_bytes().to_vec(); if !names.contains(&v) { names.push(v); } } }
        c.case("multi", format!("files {:?}", names.iter().map(|n| String::from_utf8_lossy(n).to_string()).collect::<Vec<_>>()), || {
            use std::os::unix::ffi::OsStrExt;
            let _ = std::fs::remove_dir_all(&dir);
            er(std::fs::create_dir_all(dir.join("subdir")))?;
            for (i, n) in names.iter().enumerate() { er(std::fs::write(dir.join(std::ffi::OsStr::from_bytes(n)), format!("ts,a\n{},x\n", 1000 + i)))?; }
            let mut order: Vec<usize> = (0..names.len()).collect();
            order.sort_by(|a, b| names[*a].cmp(&names[*b]));
            let input = chopper::input::input::Input { input: chopper::input::input::InputType::Path(dir.to_str().unwrap().to_string()), format: chopper::input::input::InputFormat::Extension(".csv".into()) };
            let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_input(&input))?;
            let (got, e) = drain(&mut s);
            same("end", &e, &None)?;
            same("times", &got.iter().map(|r| r.0).collect::<Vec<_>>(), &order.iter().map(|i| 1000 + *i as u64).collect())
        });
    }
    // every file is of the format that its name or its contents tell, or of the one that was given
    for q in 0..c.n(60) {
        let n = c.rng.range(2, 7);
        let given = q % 3 == 0;
        let files: Vec<(String, Vec<u8>)> = (0..n).map(|i| {
            let dc = !given && c.rng.chance(1, 3);
            let body = if dc { crate::p_dc::ref_encode(&["ts".into(), "a".into()], &[FieldType::String; 2], &[(1000 + i as u64, vec![V::S((1000 + i).to_string()), V::S("x".into())])], &[]) } else { format!("ts,a\n{},x\n", 1000 + i).into_bytes() };
            let kext = if dc { ".dc" } else { ".csv" };
            if given { let tail = *c.rng.pick(&["", "~", ".dc", ".csv", ".bak", ".csv.gz", ".zip", ".old", ".tmp", ".part"]); return (format!("{:02}{}", i, tail), body); }
            match c.rng.below(5) {
                0 => { let z = crate::p_decomp::any_told(c, &body); (format!("{:02}{}{}", i, kext, z.ext), z.bytes) }
                1 => { let z = crate::p_decomp::gz(c, &body); (format!("{:02}", i), z.bytes) }
                2 => (format!("{:02}{}", i, *c.rng.pick(&["", ".data", ".tmp", "~", ".bak"])), body),
                _ => (format!("{:02}{}", i, kext), body),
            }
        }).collect();
        c.case("multi", format!("csv given={} files {:?}", given, files.iter().map(|f| &f.0).collect::<Vec<_>>()), || {
            let _ = std::fs::remove_dir_all(&dir);
            er(std::fs::create_dir_all(dir.join("subdir")))?;
            for (nm, b) in &files { er(std::fs::write(dir.join(nm), b))?; }
            let input = chopper::input::input::Input { input: chopper::input::input::InputType::Path(dir.to_str().unwrap().to_string()), format: if given { chopper::input::input::InputFormat::Extension("csv".into()) } else { chopper::input::input::InputFormat::Auto } };
            let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_input(&input))?;
            let (got, e) = drain(&mut s);
            same("end", &e, &None)?;
            same("rows", &got, &(0..n).map(|i| (1000 + i as u64, vec![V::S((1000 + i).to_string()), V::S("x".into())])).collect())
        });
    }
    // a file that is gone, or cut short, or something else, when its turn comes
    for q in 0..c.n(40) {
        let (n, k, how) = (c.rng.range(2, 7), c.rng.range(1, 6), q % 4);
        let rows = c.rng.range(1, 4);
        let ext = *c.rng.pick(&[".csv", ".csv.gz", ".dc", ""]);
        if k >= n { continue; }
        let files: Vec<(String, Vec<u8>)> = (0..n).map(|i| {
            let body = if ext == ".dc" { crate::p_dc::ref_encode(&["ts".into(), "a".into()], &[FieldType::String; 2], &(0..rows).map(|j| { let t = (1000 + i * 10 + j) as u64; (t, vec![V::S(t.to_string()), V::S("x".into())]) }).collect::<Vec<R>>(), &[]) } else { let mut s = "ts,a\n".to_string(); for j in 0..rows { s += &format!("{},x\n", 1000 + i * 10 + j); } s.into_bytes() };
            (format!("{:02}{}", i, ext), if ext == ".csv.gz" { crate::p_decomp::gz(c, &body).bytes } else { body })
        }).collect();
        c.case("multi", format!("{} files {:?} of {} rows, number {} {} before its turn", n, ext, rows, k, ["removed", "cut short", "replaced by a directory", "replaced by other columns"][how]), || {
            let _ = std::fs::remove_dir_all(&dir);
            er(std::fs::create_dir_all(&dir))?;
            for (nm, b) in &files { er(std::fs::write(dir.join(nm), b))?; }
            let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_path(dir.to_str().unwrap()))?;
            let p = dir.join(&files[k].0);
            er(std::fs::remove_file(&p))?;
            match how {
                0 => {}
                1 => er(std::fs::write(&p, if ext == ".csv" || ext == "" { b"ts,a\n,x\n".to_vec() } else { files[k].1[..files[k].1.len() - 1].to_vec() }))?,
                2 => er(std::fs::create_dir_all(&p))?,
                _ => er(std::fs::write(&p, b"ts,b\n9,x\n"))?,
            }
            let (got, e) = drain(&mut s);
            if e.is_none() { return Err(format!("{} rows and no error", got.len())); }
            if got.len() < k * rows || got.len() > (k + 1) * rows { return Err(format!("{} rows, then {:?}", got.len(), e)); }
            for (i, r) in got.iter().enumerate() { same("time", &r.0, &((1000 + i / rows * 10 + i % rows) as u64))?; }
            Ok(())
        });
    }
    c.case("multi", "a directory without files".into(), || {
        let _ = std::fs::remove_dir_all(&dir);
        er(std::fs::create_dir_all(dir.join("subdir")))?;
        let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_path(dir.to_str().unwrap()))?;
        same("rows", &drain(&mut s), &(vec![], None))
    });
}
