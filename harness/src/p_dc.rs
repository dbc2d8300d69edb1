// dc-roundtrip, dc-read: the dc format, against an encoder and a parser of its own
use crate::common::*;
use chopper::chopper::chopper::{HeaderSink, Source};
use chopper::chopper::types::{FieldType, Header};
use chopper::source::dc_source::DCSource;
use chopper::write::dc_sink::DCSink;

const TYPES: [FieldType; 8] = [FieldType::Byte, FieldType::Char, FieldType::Double, FieldType::Float, FieldType::Int, FieldType::Long, FieldType::Short, FieldType::String];
pub fn type_name(t: FieldType) -> &'static str {
    match t {
        FieldType::Boolean => "Z", FieldType::Byte => "B", FieldType::ByteBuf => "Ljava.lang.ByteBuffer;", FieldType::Char => "C", FieldType::Double => "D", FieldType::Float => "F",
        FieldType::Int => "I", FieldType::Long => "J", FieldType::Short => "S", FieldType::String => "Ljava.lang.String;",
    }
}
fn type_of(n: &[u8]) -> Option<FieldType> {
    let mut all = TYPES.to_vec();
    all.extend_from_slice(&[FieldType::Boolean, FieldType::ByteBuf]);
    all.into_iter().find(|t| type_name(*t).as_bytes() == n)
}
fn put_s(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(&(s.len() as u32).to_be_bytes()); o.extend_from_slice(s); }
pub fn ref_encode(names: &[String], types: &[FieldType], rows: &[R], user: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend_from_slice(&0x44434154u64.to_be_bytes());
    o.extend_from_slice(&2u16.to_be_bytes());
    put_s(&mut o, user);
    o.extend_from_slice(&(names.len() as u32).to_be_bytes());
    for (n, t) in names.iter().zip(types) { put_s(&mut o, n.as_bytes()); put_s(&mut o, type_name(*t).as_bytes()); o.extend_from_slice(&(-1i32).to_be_bytes()); }
    for (ts, vs) in rows {
        o.extend_from_slice(&ts.to_be_bytes());
        let mut bits = vec![0u8; (vs.len() + 7) / 8];
        for (i, v) in vs.iter().enumerate() { if *v == V::None { bits[i / 8] |= 1 << (i % 8); } }
        o.extend_from_slice(&bits);
        for v in vs {
            match v {
                V::Byte(x) => o.push(*x), V::Char(x) => o.extend_from_slice(&x.to_be_bytes()), V::D(x) => o.extend_from_slice(&x.to_be_bytes()), V::F(x) => o.extend_from_slice(&x.to_be_bytes()),
                V::Int(x) => o.extend_from_slice(&x.to_be_bytes()), V::Long(x) => o.extend_from_slice(&x.to_be_bytes()), V::Short(x) => o.extend_from_slice(&x.to_be_bytes()),
                V::S(s) => { if s.len() <= 32767 { o.extend_from_slice(&(s.len() as i16).to_be_bytes()) } else { o.extend_from_slice(&[255, 255]); o.extend_from_slice(&(s.len() as u32).to_be_bytes()) } o.extend_from_slice(s.as_bytes()) }
                _ => {}
            }
        }
    }
    o
}
struct P<'a> { b: &'a [u8], p: usize }
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], E> { if self.b.len() - self.p < n { return Err(E::Bad); } self.p += n; Ok(&self.b[self.p - n..self.p]) }
    fn u(&mut self, n: usize) -> Result<u64, E> { Ok(self.take(n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64)) }
    fn s(&mut self) -> Result<&'a [u8], E> { let n = self.u(4)? as usize; self.take(n) }
}
#[derive(Debug, PartialEq, Clone)]
pub enum E { Bad }
pub struct Parsed { names: Vec<String>, types: Vec<FieldType>, rows: Vec<R>, end: Result<(), E> }
/// what the dc format says the bytes hold: Err = the header is bad; end = whether the rows end cleanly
pub fn ref_parse(b: &[u8]) -> Result<Parsed, E> {
    let mut p = P { b, p: 0 };
    if p.u(8)? != 0x44434154 || p.u(2)? != 2 { return Err(E::Bad); }
    p.s()?;
    let n = p.u(4)?;
    let (mut names, mut types) = (vec![], vec![]);
    for i in 0..n {
        let name = String::from_utf8(p.s()?.to_vec()).map_err(|_| E::Bad)?;
        let t = std::str::from_utf8(p.s()?).map_err(|_| E::Bad)?;
        let hint = p.u(4)? as u32 as i32;
        if hint < -1 || hint > 6 { return Err(E::Bad); }
        types.push(type_of(t.as_bytes()).ok_or(E::Bad)?);
        names.push(if name.is_empty() { format!("col_{}", i) } else { name });
    }
    let mut rows = vec![];
    let end = loop {
        if p.p == b.len() { break Ok(()); }
        match ref_row(&mut p, &types) { Ok(r) => rows.push(r), Err(e) => break Err(e) }
    };
    Ok(Parsed { names, types, rows, end })
}
fn ref_row(p: &mut P, types: &[FieldType]) -> Result<R, E> {
    let ts = p.u(8)?;
    let bits = p.take((types.len() + 7) / 8)?;
    let mut vs = vec![];
    for (i, t) in types.iter().enumerate() {
        if bits[i / 8] >> (i % 8) & 1 == 1 { vs.push(V::None); continue; }
        vs.push(match t {
            FieldType::Boolean | FieldType::ByteBuf => return Err(E::Bad),
            FieldType::Byte => V::Byte(p.u(1)? as u8), FieldType::Char => V::Char(p.u(2)? as u16), FieldType::Double => V::D(p.u(8)?), FieldType::Float => V::F(p.u(4)? as u32),
            FieldType::Int => V::Int(p.u(4)? as u32 as i32), FieldType::Long => V::Long(p.u(8)? as i64), FieldType::Short => V::Short(p.u(2)? as u16 as i16),
            FieldType::String => {
                // a length below -1 does not exist, and nothing of 4 GB follows here
                let n = p.u(2)? as u16 as i16;
                let n = if n == -1 { p.u(4)? as usize } else if n < 0 { return Err(E::Bad) } else { n as usize };
                V::S(String::from_utf8(p.take(n)?.to_vec()).map_err(|_| E::Bad)?)
            }
        });
    }
    Ok((ts, vs))
}

const LENS: [usize; 14] = [0, 1, 2, 7, 255, 256, 8191, 8192, 32766, 32767, 32768, 65535, 65536, 70001];
fn gen_str(c: &mut Ctx, big: bool) -> String {
    let n = if big { *c.rng.pick(&LENS) } else { c.rng.below(9) };
    let alpha: Vec<char> = "abcXYZ09 ,\"\n\t\0\u{7f}é\u{ffff}\u{feff}\u{2028}\r漢\u{1F600}".chars().collect();
    let one = c.rng.chance(1, 2);
    let mut s = String::new();
    while s.len() < n { let ch = if one { 'q' } else { *c.rng.pick(&alpha) }; if s.len() + ch.len_utf8() > n { s.push('z') } else { s.push(ch) } }
    s
}
fn gen_val(c: &mut Ctx, t: FieldType, big: bool) -> V {
    let x = match c.rng.below(4) { 0 => *c.rng.pick(&[0u64, 1, 255, 256, 32767, 32768, 65535, 1 << 31, u64::MAX, 1 << 63, (1 << 63) - 1]), _ => c.rng.next() };
    match t {
        FieldType::Byte => V::Byte(x as u8), FieldType::Char => V::Char(x as u16), FieldType::Short => V::Short(x as i16), FieldType::Int => V::Int(x as i32), FieldType::Long => V::Long(x as i64),
        FieldType::Double => V::D(if c.rng.chance(1, 4) { c.rng.pick(&[0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1.5, f64::MAX]).to_bits() } else { f64::from_bits(x).to_bits() }),
        FieldType::Float => V::F(if c.rng.chance(1, 4) { c.rng.pick(&[0.0f32, -0.0, f32::INFINITY, 1.5, f32::MAX]).to_bits() } else { x as u32 & 0xff7f_ffff }),
        FieldType::String => V::S(gen_str(c, big)),
        FieldType::Boolean => V::Bool(x & 1 == 1), FieldType::ByteBuf => V::Buf(vec![x as u8]),
    }
}
pub fn gen_table(c: &mut Ctx, small: bool) -> (Vec<String>, Vec<FieldType>, Vec<R>) {
    // some are wide, some are long
    let big = if small { 99 } else { c.rng.below(60) };
    let n = if small { c.rng.below(5) } else if big == 0 { *c.rng.pick(&[255usize, 256, 257, 264, 300, 520, 1030]) } else { *c.rng.pick(&[0usize, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 40, 63, 64, 65, 130]) };
    let types: Vec<FieldType> = (0..n).map(|_| *c.rng.pick(&TYPES)).collect();
    let names: Vec<String> = (0..n).map(|_| { let big = !small && c.rng.chance(1, 40); gen_str(c, big) }).collect();
    let m = if small { c.rng.below(4) } else if big == 1 && n < 10 { c.rng.range(257, 3000) } else { *c.rng.pick(&[0usize, 1, 2, 3, 8, 30]) };
    let rows = (0..m).map(|_| {
        let density = c.rng.below(4);
        (*c.rng.pick(&[0u64, 1, 0x44434154, u64::MAX, 1_600_000_000_000_000_000]), types.iter().map(|t| if c.rng.chance(density, 3) { V::None } else { let big = !small && c.rng.chance(1, 12); gen_val(c, *t, big) }).collect())
    }).collect();
    (names, types, rows)
}
pub fn write_dc(path: &std::path::Path, names: &[String], types: &[FieldType], rows: &[R]) -> Result<(), String> {
    let s: Box<dyn HeaderSink> = Box::new(show_err(DCSink::new(&Some(path.to_str().unwrap().to_string())))?);
    let mut h = Header::new(names.to_vec(), types.to_vec());
    let mut d = show_err(s.process_header(&mut h))?;
    for r in rows { let mut v = vec![row_of(r)]; show_err(d.write_row(&mut v))?; if v.len() != 1 || r_of(&v[0]) != *r { return Err("BROKEN: the sink changed the rows it was given".into()); } }
    show_err(d.flush())
}
fn names_read(names: &[String]) -> Vec<String> { names.iter().enumerate().map(|(i, n)| if n.is_empty() { format!("col_{}", i) } else { n.clone() }).collect() }
fn short(x: &(Vec<String>, Vec<FieldType>, Vec<R>)) -> String { let mut s = format!("names={:?} types={:?} rows={:?}", x.0, x.1, x.2); cut(&mut s, 1500); s }

pub fn roundtrip(c: &mut Ctx) {
    let path = c.scratch("t.dc");
    for q in 0..c.n(1500) {
        let (names, types, rows) = gen_table(c, q % 3 == 0);
        let sizes: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.range(1, 9000)).collect();
        c.case("roundtrip", format!("chunks={:?} {}", sizes, short(&(names.clone(), types.clone(), rows.clone()))), || {
            write_dc(&path, &names, &types, &rows)?;
            let b = er(std::fs::read(&path))?;
            let want = ref_encode(&names, &types, &rows, &[]);
            if b != want { return Err(format!("the bytes written differ from the dc format at offset {} (lengths {} and {})", b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len())), b.len(), want.len())); }
            let mut s: Box<dyn Source> = Box::new(show_err(DCSource::new(Chunked::new(b, sizes)))?);
            same("names", s.header().field_names(), &names_read(&names))?;
            same("types", s.header().field_types(), &types)?;
            let (got, e) = drain(&mut s);
            same("rows", &got, &rows)?;
            same("end", &e, &None)
        });
    }
    // one value or null at every position of every width
    for n in 1..=(if c.thorough { 80usize } else { 34 }) { for k in 0..n {
        let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
        let types = vec![TYPES[(n + k) % 8]; n];
        let v = |on: bool| if on { V::None } else { match types[0] { FieldType::Byte => V::Byte(k as u8), FieldType::Char => V::Char(k as u16), FieldType::Double => V::D(k as u64), FieldType::Float => V::F(k as u32), FieldType::Int => V::Int(-(k as i32)), FieldType::Long => V::Long(-(k as i64)), FieldType::Short => V::Short(-(k as i16)), _ => V::S(format!("s{}", k)) } };
        let rows: Vec<R> = vec![(1, (0..n).map(|i| v(i == k)).collect()), (2, (0..n).map(|i| v(i != k)).collect()), (3, (0..n).map(|_| v(false)).collect()), (4, (0..n).map(|_| v(true)).collect())];
        c.case("roundtrip", format!("null at {} of {} {:?}", k, n, types[0]), || {
            write_dc(&path, &names, &types, &rows)?;
            let mut s: Box<dyn Source> = Box::new(show_err(DCSource::new(er(std::fs::File::open(&path))?))?);
            let (got, e) = drain(&mut s);
            same("rows", &got, &rows)?;
            same("end", &e, &None)
        });
    } }
    // strings much like those of the row before, long names, and a value of one MB
    for len in [1usize, 15, 16, 17, 31, 32, 33, 64, 100, 255, 300, 40_000].iter() {
        let names = vec!["k".to_string(), "n".repeat(*len * 3)];
        let types = vec![FieldType::String, FieldType::Long];
        let text = |k: usize| { let mut t = vec![b'a'; *len]; if k > 0 { let at = (*len - 1) * (k - 1) / 3; t[at] = b'b'; } V::S(String::from_utf8(t).unwrap()) };
        let rows: Vec<R> = [0usize, 1, 0, 2, 2, 3, 4, 0, 4, 0].iter().enumerate().map(|(i, k)| (i as u64, vec![if i == 5 { V::None } else { text(*k) }, V::Long(i as i64)])).collect();
        c.case("roundtrip", format!("strings of {} bytes that are much alike", len), || {
            write_dc(&path, &names, &types, &rows)?;
            let mut s: Box<dyn Source> = Box::new(show_err(DCSource::new(er(std::fs::File::open(&path))?))?);
            same("names", s.header().field_names(), &names)?;
            let (got, e) = drain(&mut s);
            same("rows", &got, &rows)?;
            same("end", &e, &None)
        });
    }
    for len in [1usize << 17, (1 << 20) + 1, 3 << 20].iter() {
        c.case("roundtrip", format!("a string of {} bytes", len), || {
            let rows: Vec<R> = vec![(1, vec![V::S("é".repeat(*len / 2))]), (2, vec![V::S("end".into())])];
            write_dc(&path, &["a".to_string()], &[FieldType::String], &rows)?;
            let mut s: Box<dyn Source> = Box::new(show_err(DCSource::new(er(std::fs::File::open(&path))?))?);
            let (got, e) = drain(&mut s);
            if got != rows { return Err("the rows differ".into()); }
            same("end", &e, &None)
        });
    }
    // a sink whose output cannot take the bytes says so, at the latest when it is flushed
    if std::path::Path::new("/dev/full").exists() {
        for n in &[0usize, 1, 3000] {
            c.case("roundtrip", format!("{} rows into an output that is full", n), || {
                let rows: Vec<R> = (0..*n).map(|i| (i as u64, vec![V::Long(i as i64)])).collect();
                match write_dc(std::path::Path::new("/dev/full"), &["a".to_string()], &[FieldType::Long], &rows) { Ok(()) => Err("written without an error".into()), Err(e) if e.starts_with("BROKEN") => Err(e), Err(_) => Ok(()) }
            });
        }
    }
    for errno in ERRNOS.iter() { for after in [0usize, 1, 40, 8192, 20_000].iter() { for once in [false, true].iter() {
        let rows: Vec<R> = (0..if *after < 8192 { 2 } else { 2000 }).map(|i| (i as u64, vec![V::Long(i as i64)])).collect();
        c.case("roundtrip", format!("{} rows into an output that fails after {} bytes with errno {} once={}", rows.len(), after, errno, once), || {
            match with_failing_writes(Fails { after: *after, errno: *errno, once: *once }, || write_dc(&path, &["a".to_string()], &[FieldType::Long], &rows)) { Ok(()) => Err("written without an error".into()), Err(e) if e.starts_with("BROKEN") => Err(e), Err(_) => Ok(()) }
        });
    } } }
    // what the format has no place for is refused
    for t in [FieldType::Boolean, FieldType::ByteBuf].iter() {
        let v = gen_val(c, *t, false);
        c.case("roundtrip", format!("type {:?}", t), || {
            for rows in vec![vec![], vec![(1u64, vec![v.clone()])]] {
                if write_dc(&path, &["b".to_string()], &[*t], &rows).is_ok() { return Err("a column type the format cannot hold was written without an error".into()); }
            }
            // and a value of it under a header of another type
            match write_dc(&path, &["b".to_string()], &[FieldType::Long], &[(1, vec![v.clone()])]) { Ok(()) => Err("a value the format cannot hold was written without an error".into()), Err(e) if e.starts_with("BROKEN") => Err(e), Err(_) => Ok(()) }
        });
    }
    c.case("roundtrip", "names and types of different numbers".into(), || {
        if write_dc(&path, &["a".to_string(), "b".to_string()], &[FieldType::Long], &[]).is_ok() { return Err("accepted".into()); }
        if write_dc(&path, &["a".to_string()], &[FieldType::Long, FieldType::Long], &[]).is_ok() { return Err("accepted".into()); }
        Ok(())
    });
}
fn check_read(b: Vec<u8>, sizes: Vec<usize>, fail: bool) -> Result<(), String> { check_read_then(b, sizes, fail, None) }
/// more: the reader fails once where the bytes end and would go on with these
fn check_read_then(b: Vec<u8>, sizes: Vec<usize>, fail: bool, more: Option<(&[u8], std::io::ErrorKind)>) -> Result<(), String> {
    let want = ref_parse(&b);
    let n = b.len();
    let mut rd = Chunked::new(b, sizes);
    if let Some((more, kind)) = more { rd.data.extend_from_slice(more); rd.hiccup = Some((n, kind)); }
    else if fail { rd.fail = Some(std::io::ErrorKind::Other); }
    let s = DCSource::new(rd);
    let want = match want { Err(_) => { return match s { Err(_) => Ok(()), Ok(_) => Err("a bad header was accepted".into()) } } Ok(w) => w };
    let mut s: Box<dyn Source> = Box::new(show_err(s)?);
    same("names", s.header().field_names(), &want.names)?;
    same("types", s.header().field_types(), &want.types)?;
    let (got, e) = drain(&mut s);
    same("rows", &got, &want.rows)?;
    match (want.end, fail, e) {
        (Ok(()), false, Some(e)) => Err(format!("error at the clean end of the data: {}", e)),
        (Ok(()), true, None) => Err("the read failure at the end was taken for the end of the data".into()),
        (Err(_), _, None) => Err(format!("damaged data was taken for the end of the data after {} rows", got.len())),
        _ => Ok(()),
    }
}
pub fn read(c: &mut Ctx) {
    for q in 0..c.n(400) {
        let (names, types, rows) = gen_table(c, true);
        let ulen = if q % 50 == 7 { *c.rng.pick(&[255usize, 256, 8191, 8192, 8193, 65535, 65536, 70_000]) } else { c.rng.below(20) };
        let user = vec![b'u'; ulen];
        let b = ref_encode(&names, &types, &rows, &user);
        // cut at every place, clean or with a read failure there
        let step = if b.len() > 400 { 1 + b.len() / 200 } else { 1 };
        let mut k = 0;
        while k <= b.len() {
            let sizes = if q % 3 == 0 { vec![c.rng.range(1, 7)] } else { vec![] };
            let fail = (k + q) % 5 == 0;
            let bb = b[..k].to_vec();
            let more = if fail && c.rng.chance(1, 2) { Some(*c.rng.pick(&KINDS)) } else { None };
            c.case("read", format!("cut={} of {} fail={} then more={:?} chunks={:?} bytes={}", k, b.len(), fail, more, sizes, hex(&b)), || check_read_then(bb, sizes, fail, more.map(|m| (&b[k..], m))));
            k += step;
        }
        // flipped bytes and wild counts
        for _ in 0..12 {
            let mut m = b.clone();
            if m.is_empty() { continue; }
            for _ in 0..c.rng.range(1, 2) {
                let k = if c.rng.chance(1, 2) { c.rng.below(m.len().min(60)) } else { c.rng.below(m.len()) };
                m[k] = *c.rng.pick(&[0u8, 1, 2, 7, 8, 0x7f, 0x80, 0xff, m[k] ^ 1, m[k].wrapping_add(1)]);
            }
            let text = format!("changed bytes={}", hex(&m));
            c.case("read", text, || check_read(m, vec![], false));
        }
    }
    // random rows after a valid header
    for _ in 0..c.n(600) {
        let (names, types, _) = gen_table(c, true);
        let mut b = ref_encode(&names, &types, &[], &[]);
        for _ in 0..c.rng.below(60) { let x = *c.rng.pick(&[0u8, 0, 0, 1, 2, 3, b'a', 0xff, 0x80]); b.push(x); }
        c.case("read", format!("random rows bytes={}", hex(&b)), || check_read(b, vec![], false));
    }
    // wide rows, cut within the last of them and a little before
    for n in &[7usize, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 129, 300] {
        let names: Vec<String> = (0..*n).map(|i| format!("c{}", i)).collect();
        let types: Vec<FieldType> = (0..*n).map(|i| TYPES[i % TYPES.len()]).collect();
        let rows: Vec<R> = (0..3u64).map(|t| (t << 40 | 5, types.iter().enumerate().map(|(i, ty)| if *ty == FieldType::ByteBuf || (i as u64 + t) % 4 == 0 { V::None } else { gen_val(c, *ty, false) }).collect())).collect();
        let ends: Vec<usize> = (0..=3).map(|k| ref_encode(&names, &types, &rows[..k], &[]).len()).collect();
        let b = ref_encode(&names, &types, &rows, &[]);
        for from in &ends { for k in (from.saturating_sub(3)..from + 24).chain(vec![b.len() - 1]) { if k <= b.len() { for fail in &[false, true] {
            let bb = b[..k].to_vec();
            c.case("read", format!("{} columns, cut={} of {} (rows end at {:?}) fail={}", n, k, b.len(), ends, fail), || check_read(bb, vec![], *fail));
        } } } }
    }
    // long strings that are no text at one place
    for n in &[10usize, 255, 256, 1000, 4095, 4096, 4097, 5000, 8192, 8193, 32767, 32768, 70_000] { for at in &[0usize, n / 2, n - 1] { for x in &[0xffu8, 0x80, 0xc3, 0xed] {
        let s = "q".repeat(*n);
        let mut b = ref_encode(&["a".into()], &[FieldType::String], &[(5, vec![V::S("x".into())]), (6, vec![V::S(s.clone())]), (7, vec![V::S("y".into())])], &[]);
        let tail = ref_encode(&["a".into()], &[FieldType::String], &[(7, vec![V::S("y".into())])], &[]).len() - ref_encode(&["a".into()], &[FieldType::String], &[], &[]).len();
        let k = b.len() - tail - n + at;
        assert!(b[k] == b'q');
        b[k] = *x;
        c.case("read", format!("a string of {} bytes whose byte {} is {:02x}", n, at, x), || check_read(b, vec![], false));
    } } }
    // string lengths that do not exist, with little and much behind them
    for n in [-2i16, -3, -127, -128, -255, -256, -257, -32767, -32768].iter() { for tail in [0usize, 1, 5, 300, 70_000].iter() {
        let mut b = ref_encode(&["a".to_string()], &[FieldType::String], &[(5, vec![V::S("x".into())])], &[]);
        b.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 6, 0]);
        b.extend_from_slice(&n.to_be_bytes()); b.extend(vec![b'y'; *tail]);
        c.case("read", format!("string length {} and {} bytes", n, tail), || check_read(b, vec![], false));
    } }
    // all the display hints, unknown types, wrong magic and versions
    for hint in -3i32..9 { let mut b = ref_encode(&["a".to_string()], &[FieldType::Int], &[(5, vec![V::Int(9)])], &[]); b[28..32].copy_from_slice(&hint.to_be_bytes()); c.case("read", format!("hint {}", hint), || check_read(b, vec![], false)); }
    for t in ["", "X", "Q", "b", "Z", "Ljava.lang.String", "Ljava.lang.ByteBuffer;", "Ljava.lang.String;;", "\u{ff}"].iter() {
        let mut b = ref_encode(&[], &[], &[], &[]);
        let n = b.len(); b[n - 1] = 1;
        put_s(&mut b, b"a"); put_s(&mut b, t.as_bytes()); b.extend_from_slice(&[255; 4]);
        for tail in vec![vec![], vec![0u8; 9], vec![1u8; 9]] { let mut b = b.clone(); b.extend_from_slice(&tail); c.case("read", format!("type {:?} tail {:?}", t, tail), || check_read(b, vec![], false)); }
    }
}

pub fn ref_parse_rows(b: &[u8]) -> Result<(Vec<String>, Vec<FieldType>, Vec<R>), String> {
    let p = ref_parse(b).map_err(|_| "not a dc header".to_string())?;
    if p.end.is_err() { return Err("the rows of the dc output do not end cleanly".into()); }
    Ok((p.names, p.types, p.rows))
}
