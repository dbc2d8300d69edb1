// decompress, zip, input-format
use crate::common::*;
use crate::p_csv::previewer;
use crate::p_dc::ref_encode;
use crate::p_io::csv_factory;
use chopper::chopper::chopper::Source;
use chopper::chopper::types::{FieldType, Header};
use chopper::decompress::decompress::{decompress, is_compressed_using_format, is_compressed_using_previewer, DecompressionFormat};
use chopper::decompress::zip::{is_zip, new_reader_for_single_file_zip_archive};
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::source_factory::SourceFactory;
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::reader::ChopperBufPreviewer;
use std::io::{Cursor, Read, Write};
use std::net::TcpListener;

// ---------------------------------------------------------------- compressors
/// ends: positions a cut at which leaves a complete file, with the number of content bytes up to there
pub struct Comp { pub bytes: Vec<u8>, pub ext: &'static str, pub ends: Vec<(usize, usize)>, pub checked: bool, pub how: String,
    /// headers, which the checksum of the content does not cover
    pub bare: Vec<(usize, usize)> }

fn xxh32(d: &[u8], seed: u32) -> u32 {
    const P: [u32; 5] = [0x9E3779B1, 0x85EBCA77, 0xC2B2AE3D, 0x27D4EB2F, 0x165667B1];
    let le = |k: usize| u32::from_le_bytes([d[k], d[k + 1], d[k + 2], d[k + 3]]);
    let mut k = 0;
    let mut h = if d.len() >= 16 {
        let mut v = [seed.wrapping_add(P[0]).wrapping_add(P[1]), seed.wrapping_add(P[1]), seed, seed.wrapping_sub(P[0])];
        while k + 16 <= d.len() { for x in v.iter_mut() { *x = x.wrapping_add(le(k).wrapping_mul(P[1])).rotate_left(13).wrapping_mul(P[0]); k += 4; } }
        v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18))
    } else { seed.wrapping_add(P[4]) };
    h = h.wrapping_add(d.len() as u32);
    while k + 4 <= d.len() { h = h.wrapping_add(le(k).wrapping_mul(P[2])).rotate_left(17).wrapping_mul(P[3]); k += 4; }
    while k < d.len() { h = h.wrapping_add((d[k] as u32).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]); k += 1; }
    h ^= h >> 15; h = h.wrapping_mul(P[1]); h ^= h >> 13; h = h.wrapping_mul(P[2]); h ^ (h >> 16)
}
fn xxh64(d: &[u8]) -> u64 {
    const P: [u64; 5] = [0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5];
    let le8 = |k: usize| { let mut b = [0; 8]; b.copy_from_slice(&d[k..k + 8]); u64::from_le_bytes(b) };
    let le4 = |k: usize| u32::from_le_bytes([d[k], d[k + 1], d[k + 2], d[k + 3]]) as u64;
    let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P[1])).rotate_left(31).wrapping_mul(P[0]);
    let mut k = 0;
    let mut h = if d.len() >= 32 {
        let mut v = [P[0].wrapping_add(P[1]), P[1], 0, 0u64.wrapping_sub(P[0])];
        while k + 32 <= d.len() { for x in v.iter_mut() { *x = round(*x, le8(k)); k += 8; } }
        let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v.iter() { h = (h ^ round(0, *x)).wrapping_mul(P[0]).wrapping_add(P[3]); }
        h
    } else { P[4] };
    h = h.wrapping_add(d.len() as u64);
    while k + 8 <= d.len() { h = (h ^ round(0, le8(k))).rotate_left(27).wrapping_mul(P[0]).wrapping_add(P[3]); k += 8; }
    if k + 4 <= d.len() { h = (h ^ le4(k).wrapping_mul(P[0])).rotate_left(23).wrapping_mul(P[1]).wrapping_add(P[2]); k += 4; }
    while k < d.len() { h = (h ^ (d[k] as u64).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]); k += 1; }
    h ^= h >> 33; h = h.wrapping_mul(P[1]); h ^= h >> 29; h = h.wrapping_mul(P[2]); h ^ (h >> 32)
}
/// the content in k pieces (some may be empty)
fn pieces(c: &mut Ctx, data: &[u8], k: usize) -> Vec<Vec<u8>> {
    let mut at: Vec<usize> = (1..k).map(|_| c.rng.below(data.len() + 1)).collect();
    at.sort_unstable();
    at.push(data.len());
    let mut p = 0;
    at.iter().map(|e| { let v = data[p..*e].to_vec(); p = *e; v }).collect()
}
pub fn gz(c: &mut Ctx, data: &[u8]) -> Comp {
    let k = *c.rng.pick(&[1usize, 1, 2, 3, 5]);
    let (mut bytes, mut ends, mut n, mut bare) = (vec![], vec![], 0, vec![]);
    for p in pieces(c, data, k) {
        let mut b = flate2::GzBuilder::new();
        let mut head = 10;
        if c.rng.chance(1, 3) { b = b.filename("x.csv"); head += 6; }
        if c.rng.chance(1, 4) { b = b.comment("c").extra(vec![1, 2, 3, 4]).mtime(7); head += 8; }
        bare.push((bytes.len(), bytes.len() + head));
        let mut w = b.write(vec![], flate2::Compression::new(c.rng.below(10) as u32));
        w.write_all(&p).unwrap();
        bytes.extend_from_slice(&w.finish().unwrap());
        n += p.len();
        ends.push((bytes.len(), n));
    }
    Comp { bytes, ext: ".gz", ends, checked: true, how: format!("gzip, {} members", k), bare }
}
pub fn lz4_frame(c: &mut Ctx, data: &[u8]) -> Comp {
    let k = *c.rng.pick(&[1usize, 1, 2, 3]);
    let (mut bytes, mut ends, mut n, mut checked, mut bare) = (vec![], vec![], 0, true, vec![]);
    for p in pieces(c, data, k) {
        bare.push((bytes.len(), bytes.len() + 15));
        let mut s = lz_fear::CompressionSettings::default();
        let sum = c.rng.chance(3, 4);
        checked &= sum;
        s.independent_blocks(c.rng.chance(1, 2)).block_checksums(c.rng.chance(1, 2)).content_checksum(sum).block_size(*c.rng.pick(&[64 << 10, 256 << 10, 4 << 20]));
        if c.rng.chance(1, 3) { s.compress_with_size_unchecked(&p[..], &mut bytes, p.len() as u64).unwrap(); } else { s.compress(&p[..], &mut bytes).unwrap(); }
        n += p.len();
        ends.push((bytes.len(), n));
    }
    Comp { bytes, ext: ".lz4", ends, checked, how: format!("lz4, {} frames", k), bare }
}
fn more(o: &mut Vec<u8>, mut n: usize) { while n >= 255 { o.push(255); n -= 255; } o.push(n as u8); }
/// lz4 block as java writes it: runs become matches, at least 8 literals at the end
fn lz4_seq(d: &[u8]) -> Vec<u8> {
    let (mut o, mut at, mut lit) = (vec![], 0, 0);
    let emit = |o: &mut Vec<u8>, l: &[u8], m: Option<(usize, usize)>| {
        o.push(((l.len().min(15) << 4) | m.map_or(0, |(_, n)| (n - 4).min(15))) as u8);
        if l.len() >= 15 { more(o, l.len() - 15); }
        o.extend_from_slice(l);
        if let Some((off, n)) = m { o.extend_from_slice(&(off as u16).to_le_bytes()); if n - 4 >= 15 { more(o, n - 4 - 15); } }
    };
    while at < d.len() {
        let mut best = (0, 0);
        if at + 20 < d.len() {
            for off in &[1usize, 2, 3, 5, 7, 10, 40, 100, 300] {
                if *off > at { continue; }
                let n = (0..d.len() - 12 - at).take_while(|i| d[at + i] == d[at + i - off]).count();
                if n > best.1 { best = (*off, n); }
            }
        }
        if best.1 >= 4 { emit(&mut o, &d[lit..at], Some(best)); at += best.1; lit = at; } else { at += 1; }
    }
    emit(&mut o, &d[lit..], None);
    o
}
pub fn lz4_jblock(c: &mut Ctx, data: &[u8]) -> Comp {
    let (mut bytes, mut ends, mut n) = (vec![], vec![], 0);
    let k = c.rng.range(1, 4);
    let level = *c.rng.pick(&[6u8, 7, 12]);
    let mut packed = 0;
    let mut bare = vec![];          // the checksum covers the bytes of a block, not its header; packed bytes: see the finding below
    for q in pieces(c, data, k) { for p in q.chunks(1 << (10 + level as usize)) {
        let sum = xxh32(p, 0x9747b28c) & 0x0FFFFFFF;
        let z = if p.len() > 30 && c.rng.chance(2, 3) { packed += 1; Some(lz4_seq(p)) } else { None };
        bare.push((bytes.len(), bytes.len() + 21 + z.as_ref().map_or(0, |z| z.len())));
        bytes.extend_from_slice(b"LZ4Block");
        bytes.push(level | if z.is_some() { 0x20 } else { 0x10 });
        let body = z.as_ref().map_or(p, |z| &z[..]);
        bytes.extend_from_slice(&(body.len() as u32).to_le_bytes());
        bytes.extend_from_slice(&(p.len() as u32).to_le_bytes());
        bytes.extend_from_slice(&sum.to_le_bytes());
        bytes.extend_from_slice(body);
        n += p.len();
        ends.push((bytes.len(), n));
    } }
    bare.push((bytes.len(), bytes.len() + 21));
    bytes.extend_from_slice(b"LZ4Block");
    bytes.push(level | 0x10);
    bytes.extend_from_slice(&[0; 12]);
    ends.push((bytes.len(), n));
    Comp { bytes, ext: ".lz4", ends, checked: true, how: format!("lz4 blocks of java, {} of them packed", packed), bare }
}
fn lzf_seq(d: &[u8]) -> Vec<u8> {
    let (mut o, mut at, mut lit) = (vec![], 0, 0);
    let lits = |o: &mut Vec<u8>, l: &[u8]| for p in l.chunks(32) { o.push(p.len() as u8 - 1); o.extend_from_slice(p); };
    while at < d.len() {
        let mut best = (0usize, 0usize);
        for off in &[1usize, 2, 5, 10, 40, 300, 1000] {
            if *off > at { continue; }
            let n = (0..(d.len() - at).min(264)).take_while(|i| d[at + i] == d[at + i - off]).count();
            if n > best.1 { best = (*off, n); }
        }
        if best.1 >= 3 {
            lits(&mut o, &d[lit..at]);
            let (off, n) = (best.0 - 1, best.1);
            if n <= 8 { o.push((((n - 2) << 5) | (off >> 8)) as u8); } else { o.push((0xE0 | (off >> 8)) as u8); o.push((n - 9) as u8); }
            o.push(off as u8);
            at += best.1; lit = at;
        } else { at += 1; }
    }
    lits(&mut o, &d[lit..]);
    o
}
pub fn lzf(c: &mut Ctx, data: &[u8]) -> Comp {
    let (mut bytes, mut ends, mut n) = (vec![], vec![], 0);
    let k = c.rng.range(1, 4);
    for q in pieces(c, data, k) { for p in q.chunks(*c.rng.pick(&[30000usize, 65535])) {
        bytes.extend_from_slice(b"ZV");
        let z = lzf_seq(p);
        if z.len() < 65536 && c.rng.chance(2, 3) { bytes.push(1); bytes.extend_from_slice(&(z.len() as u16).to_be_bytes()); bytes.extend_from_slice(&(p.len() as u16).to_be_bytes()); bytes.extend_from_slice(&z); }
        else { bytes.push(0); bytes.extend_from_slice(&(p.len() as u16).to_be_bytes()); bytes.extend_from_slice(p); }
        n += p.len();
        ends.push((bytes.len(), n));
    } }
    Comp { bytes, ext: ".lzf", ends, checked: false, how: "lzf".into(), bare: vec![] }
}
fn skippable(c: &mut Ctx, bytes: &mut Vec<u8>) { let m = match c.rng.below(30) { 0 => *c.rng.pick(&[255usize, 256, 65_535, 65_536, 65_537, 70_000, 131_080]), _ => c.rng.below(40) }; bytes.push(0x50 + c.rng.below(16) as u8); bytes.extend_from_slice(&[0x2A, 0x4D, 0x18]); bytes.extend_from_slice(&(m as u32).to_le_bytes()); bytes.extend(vec![0x28u8; m]); }
/// zst frames of raw and run length blocks, with and without checksums, skippable frames before, between and after them
pub fn zst(c: &mut Ctx, data: &[u8]) -> Comp {
    let k = *c.rng.pick(&[1usize, 1, 2, 3]);
    let (mut bytes, mut ends, mut n, mut skips) = (vec![], vec![], 0, 0);
    while c.rng.chance(1, 6) { skippable(c, &mut bytes); ends.push((bytes.len(), 0)); skips += 1; }
    let leading = skips > 0;
    let mut checked = true;
    for p in pieces(c, data, k) {
        let sum = if c.rng.chance(1, 2) { 4 } else { 0 };
        checked &= sum > 0;
        bytes.extend_from_slice(&[0x28, 0xB5, 0x2F, 0xFD]);
        match c.rng.below(3) {
            0 if p.len() < 256 => { bytes.push(0x20 | sum); bytes.push(p.len() as u8); }                          // single segment, 1 byte of size
            1 => { bytes.push(0xE0 | sum); bytes.extend_from_slice(&(p.len() as u64).to_le_bytes()); }            // single segment, 8 bytes of size
            _ => { bytes.push(sum); bytes.push(0x58); }                                                        // a window, no size
        }
        let mut at = 0;
        loop {
            let run = p[at..].iter().take_while(|b| **b == p[at]).count();
            let (n, rle) = if run > 3 { (run.min(100_000), true) } else { ((p.len() - at).min(c.rng.range(1, 5000)), false) };
            let last = at + n == p.len();
            let h = ((n as u32) << 3) | if rle { 2 } else { 0 } | if last { 1 } else { 0 };
            bytes.extend_from_slice(&h.to_le_bytes()[..3]);
            if rle { bytes.push(p[at]) } else { bytes.extend_from_slice(&p[at..at + n]) }
            at += n;
            if last { break; }
        }
        if sum > 0 { bytes.extend_from_slice(&(xxh64(&p) as u32).to_le_bytes()); }
        n += p.len();
        ends.push((bytes.len(), n));
        while c.rng.chance(1, 4) { skippable(c, &mut bytes); ends.push((bytes.len(), n)); skips += 1; }
    }
    Comp { bytes, ext: ".zst", ends, checked: checked && skips == 0, how: format!("zst, {} frames, {} skippable{}{}", k, skips, if leading { ", one of them first" } else { "" }, if checked { ", checksums" } else { "" }), bare: vec![] }
}
fn cli(cmd: &str, args: &[&str], data: &[u8]) -> Option<Vec<u8>> {
    let mut p = std::process::Command::new(cmd).args(args).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let mut i = p.stdin.take()?;
    let d = data.to_vec();
    let t = std::thread::spawn(move || { let _ = i.write_all(&d); });
    let o = p.wait_with_output().ok()?;
    let _ = t.join();
    if o.status.success() { Some(o.stdout) } else { None }
}
/// zst frames of the reference implementation
pub fn zst_cli(c: &mut Ctx, data: &[u8]) -> Option<Comp> {
    let k = *c.rng.pick(&[1usize, 2]);
    let (mut bytes, mut ends, mut n) = (vec![], vec![], 0);
    for p in pieces(c, data, k) {
        let l = *c.rng.pick(&["-1", "-3", "-9", "-19"]);
        bytes.extend_from_slice(&cli("zstd", &[l, "-c", "-q"], &p)?);
        n += p.len();
        ends.push((bytes.len(), n));
    }
    Some(Comp { bytes, ext: ".zst", ends, checked: true, how: format!("zst of the zstd tool, {} frames", k), bare: vec![] })
}
/// compressed data that its first bytes tell (a skippable frame says nothing about the format)
pub fn any_told(c: &mut Ctx, data: &[u8]) -> Comp { loop { let z = any(c, data); if !z.how.contains("one of them first") { return z; } } }
pub fn any(c: &mut Ctx, data: &[u8]) -> Comp {
    match c.rng.below(20) {
        0..=4 => gz(c, data), 5..=8 => lz4_frame(c, data), 9..=11 => lz4_jblock(c, data), 12..=14 => lzf(c, data), 15 => zst_cli(c, data).unwrap_or_else(|| zst(c, data)), _ => zst(c, data),
    }
}
fn gen_data(c: &mut Ctx) -> Vec<u8> {
    let n = *c.rng.pick(&[1usize, 2, 5, 17, 40, 100, 300, 1000, 5000, 70_000, 200_000]);
    let n = if c.rng.chance(1, 60) { *c.rng.pick(&[65_535usize, 65_536, 65_537, 262_145, 1_100_000, 4_194_304, 4_300_000]) } else { n };
    let n = if c.rng.chance(1, 8) { 0 } else { n };
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        match c.rng.below(3) {
            0 => { let m = c.rng.range(1, 60); for _ in 0..m { v.push(c.rng.next() as u8); } }
            1 => { let m = c.rng.range(1, 400); let b = *c.rng.pick(b"ab0,\n"); v.extend(vec![b; m]); }
            _ => { if !v.is_empty() { let m = c.rng.range(1, 300); let o = c.rng.below(v.len()); let m = m.min(v.len() - o); let t = v[o..o + m].to_vec(); v.extend(t); } }
        }
    }
    v.truncate(n);
    v
}
fn kind(f: &DecompressionFormat) -> &'static str { match f { DecompressionFormat::GZ => ".gz", DecompressionFormat::LZ4 => ".lz4", DecompressionFormat::LZF => ".lzf", DecompressionFormat::ZIP => ".zip", DecompressionFormat::ZST => ".zst" } }
fn read_all(mut r: Box<dyn Read>, sizes: &[usize]) -> (Vec<u8>, Option<String>) {
    let (mut v, mut k) = (vec![], 0);
    loop {
        let mut b = vec![0u8; sizes[k % sizes.len()]];
        k += 1;
        // a read of no bytes gives none and changes nothing
        if k % 3 == 1 { match r.read(&mut []) { Ok(0) => {} Ok(_) => return (v, Some("a read of no bytes gave some".into())), Err(e) => return (v, Some(format!("a read of no bytes: {}", e))) } }
        match r.read(&mut b) { Ok(0) => break, Ok(n) => v.extend_from_slice(&b[..n]), Err(e) => return (v, Some(e.to_string())) }
        if v.len() > 50_000_000 { return (v, Some("never ends".into())); }
    }
    for _ in 0..2 { let mut b = [0u8; 9]; match r.read(&mut b) { Ok(0) => {} Ok(_) => return (v, Some("bytes after the end".into())), Err(e) => { v.extend_from_slice(format!("(an end, and after it an error: {})", e).as_bytes()); return (v, None); } } }
    (v, None)
}
fn un(bytes: Vec<u8>, ext: &str, by_content: bool, chunks: Vec<usize>, sizes: &[usize]) -> Result<(Vec<u8>, Option<String>), String> {
    let p = previewer(bytes, chunks)?;
    let f = if by_content { is_compressed_using_previewer(&p).ok_or("not recognised by its contents")? } else { let (f, rest) = is_compressed_using_format(&format!("a.csv{}", ext)).ok_or("not recognised by its name")?; if rest != "a.csv" { return Err(format!("name left over: {:?}", rest)); } f };
    if kind(&f) != ext { return Err(format!("taken for {}", kind(&f))); }
    Ok(match decompress(f, p) { Ok(r) => read_all(r, sizes), Err(e) => (vec![], Some(format!("{}", e))) })
}
pub fn decompression(c: &mut Ctx) {
    for q in 0..c.n(1500) {
        let mut data = gen_data(c);
        let z = any(c, &data);
        if z.ext == ".lzf" && data.is_empty() { data.clear(); }
        let chunks: Vec<usize> = (0..c.rng.below(3)).map(|_| *c.rng.pick(&[1usize, 3, 7, 100, 4096, 20_000])).collect();
        let sizes: Vec<usize> = (0..c.rng.range(1, 3)).map(|_| *c.rng.pick(&[1usize, 3, 10, 1000, 8192, 100_000])).collect();
        let sizes = if data.len() > 20_000 { sizes.iter().map(|s| (*s).max(500)).collect() } else { sizes };
        let chunks = if z.bytes.len() > 20_000 { chunks.iter().map(|s| (*s).max(100)).collect() } else { chunks };
        let by_content = !z.bytes.is_empty() && !z.how.contains("one of them first") && c.rng.chance(1, 2);
        let d = format!("{} by {}, {} bytes packed from {}, arriving in {:?} read in {:?}", z.how, if by_content { "contents" } else { "name" }, z.bytes.len(), data.len(), chunks, sizes);
        c.case("complete", format!("{} file={} content={}", d, hex(&z.bytes), hex(&data)), || {
            let (got, e) = un(z.bytes.clone(), z.ext, by_content, chunks.clone(), &sizes)?;
            if let Some(e) = e { return Err(format!("error: {}", e)); }
            if got != data { return Err(format!("decompressed to {} bytes, expected {}; first difference at {:?}", got.len(), data.len(), got.iter().zip(&data).position(|(a, b)| a != b))); }
            Ok(())
        });
        if q % 3 == 0 && z.bytes.len() > 20 {
            let cuts: Vec<usize> = if z.bytes.len() < 40 { (1..z.bytes.len()).collect() } else { (0..6).map(|_| c.rng.range(1, z.bytes.len() - 1)).chain(z.ends.iter().map(|e| e.0 - 1)).chain(z.ends.iter().map(|e| (e.0 + 1).min(z.bytes.len() - 1))).collect() };
            for k in cuts {
                c.case("cut", format!("{} cut at {} file={}", d, k, hex(&z.bytes)), || {
                    let (got, e) = un(z.bytes[..k].to_vec(), z.ext, false, chunks.clone(), &sizes)?;
                    if got.len() > data.len() || got != data[..got.len()] { return Err("what was decompressed before the cut is not the content".into()); }
                    match z.ends.iter().find(|x| x.0 == k) {
                        Some((_, n)) => if let Some(e) = e { Err(format!("complete up to there, but error: {}", e)) } else if got.len() != *n { Err(format!("{} bytes, expected {}", got.len(), n)) } else { Ok(()) },
                        None => if e.is_some() { Ok(()) } else { Err(format!("{} of {} bytes and then the end, without an error", got.len(), data.len())) },
                    }
                });
            }
        }
        if z.checked && q % 2 == 0 && z.bytes.len() < 3000 && (0..z.bytes.len()).any(|k| z.bare.iter().all(|b| k < b.0 || b.1 <= k)) {
            let mut k = c.rng.below(z.bytes.len());
            while z.bare.iter().any(|b| b.0 <= k && k < b.1) { k = (k + 1) % z.bytes.len(); }
            let x = 1u8 << c.rng.below(8);
            c.case("damaged", format!("{} byte {} changed by {:02x} file={}", d, k, x, hex(&z.bytes)), || {
                let mut b = z.bytes.clone();
                b[k] ^= x;
                let (got, e) = un(b, z.ext, false, chunks.clone(), &sizes)?;
                if e.is_none() && got != data { return Err(format!("{} bytes that are not the content, and no error", got.len())); }
                Ok(())
            });
        }
    }
    // a checksum that is not the one of the content
    for _ in 0..c.n(80) {
        let data = gen_data(c);
        let z = zst(c, &data);
        if !z.checked || data.is_empty() { continue; }
        let sum = match c.rng.below(3) { 0 => [0u8; 4], 1 => [255; 4], _ => { let mut s = [0u8; 4]; s.copy_from_slice(&z.bytes[z.bytes.len() - 4..]); s[c.rng.below(4)] ^= 1 << c.rng.below(8); s } };
        c.case("damaged", format!("{} the last checksum replaced by {:?}", z.how, sum), || {
            let mut b = z.bytes;
            let n = b.len();
            if b[n - 4..] == sum { return Ok(()); }
            b[n - 4..].copy_from_slice(&sum);
            let (got, e) = un(b, z.ext, false, vec![], &[1000])?;
            if e.is_none() { return Err(format!("{} bytes and no error", got.len())); }
            Ok(())
        });
    }
    // skippable frames of every length
    for m in &[0usize, 1, 255, 256, 65_535, 65_536, 65_537, 200_000, 16_777_216, 16_777_217] {
        let data = gen_data(c);
        let mut b = zst(c, &data).bytes;
        b.extend_from_slice(&[0x5A, 0x2A, 0x4D, 0x18]); b.extend_from_slice(&(*m as u32).to_le_bytes()); b.extend(vec![0x28u8; *m]);
        let z = zst(c, &data);
        b.extend_from_slice(&z.bytes);
        c.case("complete", format!("zst frames with a skippable frame of {} bytes between them", m), || {
            let (got, e) = un(b, ".zst", false, vec![], &[1000])?;
            if e.is_some() || got.len() != 2 * data.len() || got[..data.len()] != data[..] || got[data.len()..] != data[..] { return Err(format!("{} of {} bytes, {:?}", got.len(), 2 * data.len(), e)); }
            Ok(())
        });
    }
    // java blocks end at the empty block, whatever follows
    for k in 0..c.n(60) {
        let (a, b) = (gen_data(c), gen_data(c));
        let (mut z, more) = (lz4_jblock(c, &a), lz4_jblock(c, &b));
        z.bytes.extend_from_slice(if k % 2 == 0 { &more.bytes } else { &b });
        c.case("after-the-end", format!("{} followed by {}", z.how, if k % 2 == 0 { "others" } else { "other bytes" }), || {
            let (got, e) = un(z.bytes, ".lz4", k % 3 == 0, vec![], &[1000])?;
            if e.is_some() || got != a { return Err(format!("{} bytes instead of {}, {:?}", got.len(), a.len(), e)); }
            Ok(())
        });
    }
    // a packed block of java whose bytes were damaged
    {
        let data = vec![b'0'; 300];
        let p = lz4_seq(&data);
        let mut z = b"LZ4Block\x26".to_vec();
        for x in &[p.len() as u32, 300, xxh32(&data, 0x9747b28c) & 0x0FFFFFFF] { z.extend_from_slice(&x.to_le_bytes()); }
        z.extend_from_slice(&p);
        z.extend_from_slice(b"LZ4Block\x16");
        z.extend_from_slice(&[0; 12]);
        let good = z.clone();
        c.case("complete", "a packed block of java".into(), || { let r = un(good, ".lz4", false, vec![], &[1000])?; if r != (data, None) { return Err(format!("{:?}", r)); } Ok(()) });
        z[21] |= 0xF0;              // more bytes of text than there are
        c.case("lz4-java-damaged", format!("a packed block of java, its first byte damaged: {}", hex(&z)), || { let (got, e) = un(z, ".lz4", false, vec![], &[1000])?; if e.is_none() { return Err(format!("{} bytes and no error", got.len())); } Ok(()) });
    }
    // a frame of linked blocks, one of them stored
    let mut r = Rng(7);
    let mut data: Vec<u8> = (0..65536).map(|_| r.next() as u8).collect();
    data.extend_from_within(1000..40_000);
    let mut z = vec![];
    lz_fear::CompressionSettings::default().independent_blocks(false).block_size(64 << 10).compress(&data[..], &mut z).unwrap();
    c.case("lz4-linked-stored", format!("lz4 frame of two linked blocks, the first one stored, the second one with matches in it, {} bytes", z.len()), || {
        let (got, e) = un(z, ".lz4", false, vec![], &[1000])?;
        if e.is_some() || got != data { return Err(format!("{} of {} bytes, {:?}", got.len(), data.len(), e)); }
        Ok(())
    });
    // read failures come through
    for _ in 0..c.n(60) {
        let data = gen_data(c);
        let z = any(c, &data);
        if z.bytes.len() < 30 { continue; }
        // mostly behind what the previewer reads
        let k = if z.bytes.len() > 8300 && c.rng.chance(3, 4) { c.rng.range(8192, z.bytes.len() - 1) } else { c.rng.range(20, z.bytes.len() - 1) };
        let hiccup = if c.rng.chance(1, 2) { Some((k, *c.rng.pick(&KINDS))) } else { None };
        c.case("read-failure", format!("{} read failure {:?} at {} of {}", z.how, hiccup, k, z.bytes.len()), || {
            let mut ch = Chunked::new(if hiccup.is_some() { z.bytes.clone() } else { z.bytes[..k].to_vec() }, vec![]);
            ch.hiccup = hiccup;
            ch.fail = Some(std::io::ErrorKind::ConnectionReset);
            let p = match ChopperBufPreviewer::new(Box::new(ch) as Box<dyn Read>) { Ok(p) => p, Err(_) => return Ok(()) };
            let f = is_compressed_using_format(z.ext).unwrap().0;
            let (got, e) = match decompress(f, p) { Ok(r) => read_all(r, &[500]), Err(_) => return Ok(()) };
            if got.len() > data.len() || got != data[..got.len()] { return Err("not the content".into()); }
            if e.is_none() { return Err(format!("{} of {} bytes and then the end, without an error", got.len(), data.len())); }
            Ok(())
        });
    }
    // contents that are none of the formats
    for _ in 0..c.n(300) {
        let mut v: Vec<u8> = (0..c.rng.below(12)).map(|_| c.rng.next() as u8).collect();
        let m: &[u8] = *c.rng.pick(&[&b"\x1f\x8b\x08\x00"[..], b"\x04\x22\x4d\x18", b"LZ4Block", b"ZV\x00\x00", b"ZV\x01\x00", b"PK\x03\x04", b"\x28\xb5\x2f\xfd", b"LZ4Blocj", b"ZV\x02\x00", b"PK\x05\x06", b"\x1f\x8b\x09\x00", b"a,b\n"]);
        let n = if c.rng.chance(1, 3) { c.rng.below(m.len()) } else { m.len() };
        let mut w = m[..n].to_vec();
        w.append(&mut v);
        let want = if w.len() < 4 { None } else if w.starts_with(b"\x1f\x8b\x08") { Some(".gz") } else if w.starts_with(b"\x04\x22\x4d\x18") || w.starts_with(b"LZ4Block") { Some(".lz4") } else if w.starts_with(b"ZV\x00") || w.starts_with(b"ZV\x01") { Some(".lzf") } else if w.starts_with(b"PK\x03\x04") { Some(".zip") } else if w.starts_with(b"\x28\xb5\x2f\xfd") { Some(".zst") } else { None };
        c.case("magic", format!("{:?}", w), || { let p = previewer(w, vec![])?; same("recognised", &is_compressed_using_previewer(&p).map(|f| kind(&f)), &want) });
    }
    for (n, w) in vec![("a.gz", Some((".gz", "a"))), ("a.csv", None), (".gz", Some((".gz", ""))), ("gz", None), ("a.lz4.gz", Some((".gz", "a.lz4"))), ("x.zst", Some((".zst", "x"))), ("x.zip", Some((".zip", "x"))), ("q.lzf", Some((".lzf", "q"))), ("q.lz4", Some((".lz4", "q"))), ("", None), ("a.gz.csv", None)] {
        c.case("name", n.to_string(), || same("recognised", &is_compressed_using_format(n).map(|(f, r)| (kind(&f), r)), &w.map(|(a, b)| (a, b.to_string()))));
    }
}

// ---------------------------------------------------------------- zip
struct Zip { bytes: Vec<u8>, name: String, how: String }
fn p16(o: &mut Vec<u8>, x: usize) { o.extend_from_slice(&(x as u16).to_le_bytes()) }
fn p32(o: &mut Vec<u8>, x: u64) { o.extend_from_slice(&(x as u32).to_le_bytes()) }
fn p64(o: &mut Vec<u8>, x: u64) { o.extend_from_slice(&x.to_le_bytes()) }
fn extra(c: &mut Ctx) -> Vec<u8> { let mut o = vec![]; for _ in 0..c.rng.below(3) { let n = c.rng.below(12); p16(&mut o, *c.rng.pick(&[0x5455usize, 0x7875, 0x000a])); p16(&mut o, n); o.extend((0..n).map(|i| i as u8)); } o }
fn zip_of(c: &mut Ctx, data: &[u8], bad: usize, prefix: bool) -> Zip {
    let method = *c.rng.pick(&[0usize, 8, 12]);
    let mut comp = match method { 0 => data.to_vec(), 8 => { let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(c.rng.below(10) as u32)); w.write_all(data).unwrap(); w.finish().unwrap() } _ => { let mut w = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast()); w.write_all(data).unwrap(); w.finish().unwrap() } };
    let mut h = crc32fast::Hasher::new();
    h.update(data);
    let crc = h.finalize() as u64;
    let name = c.rng.pick(&["a.csv", "dir/b.csv", "x", "é漢.csv"]).to_string();
    let utf8 = !name.is_ascii();
    let descriptor = c.rng.chance(1, 3);
    let mut o: Vec<u8> = if prefix { (0..c.rng.range(1, 30)).map(|_| b'#').collect() } else { vec![] };
    let local = o.len() as u64;
    let flags = if descriptor { 8 } else { 0 } | if utf8 { 1 << 11 } else { 0 } | if bad == 1 { 1 } else { 0 };
    // where an archive on more than one disk (or of more files) tells so: at its end, in the zip64 records, with the entry
    let told = if bad == 6 { c.rng.below(5) } else { 0 };
    let z_size = c.rng.chance(1, 3);
    let (z_off, z_un) = (c.rng.chance(1, 3), c.rng.chance(1, 3));
    // lengths up to the largest in the local header
    let (name, long) = match c.rng.below(12) { 0 => (format!("{}.csv", "n".repeat(*c.rng.pick(&[5000usize, 33_000, 65_531]))), true), 1 => (name, true), _ => (name, false) };
    let lx = { let mut x = extra(c); if long { let n = *c.rng.pick(&[4090usize, 5000, 33_000, 65_000]); p16(&mut x, 0x7875); p16(&mut x, n); x.extend((0..n).map(|i| i as u8)); } if z_size { p16(&mut x, 1); p16(&mut x, 16); p64(&mut x, data.len() as u64); p64(&mut x, comp.len() as u64); } x };
    let csize = comp.len() as u64;
    p32(&mut o, 0x04034b50); p16(&mut o, 45); p16(&mut o, flags); p16(&mut o, method); p16(&mut o, 0x6b3a); p16(&mut o, 0x5164);
    p32(&mut o, if descriptor { 0 } else { crc }); p32(&mut o, if descriptor { 0 } else if z_size { 0xffffffff } else { csize }); p32(&mut o, if descriptor { 0 } else if z_size { 0xffffffff } else { data.len() as u64 });
    // the directory's name counts; some tools write another one before the content
    let local_name = if c.rng.chance(1, 8) { c.rng.pick(&["", "-", "a-much-longer-name-than-in-the-directory.csv"]).to_string() } else { name.clone() };
    p16(&mut o, local_name.len()); p16(&mut o, lx.len());
    o.extend_from_slice(local_name.as_bytes()); o.extend_from_slice(&lx);
    if bad == 2 && !comp.is_empty() { let k = c.rng.below(comp.len()); comp[k] ^= 1 << c.rng.below(8); }
    o.extend_from_slice(&comp);
    if descriptor { p32(&mut o, 0x08074b50); p32(&mut o, crc); p32(&mut o, csize); p32(&mut o, data.len() as u64); }
    let cd = o.len() as u64;
    let mut x = vec![];
    let mut z = vec![];
    if z_un { p64(&mut z, data.len() as u64); }
    if z_size { p64(&mut z, csize); }
    if z_off { p64(&mut z, local); }
    x.append(&mut extra(c));
    if !z.is_empty() { p16(&mut x, 1); p16(&mut x, z.len()); x.append(&mut z); }
    x.append(&mut extra(c));
    // many records, most of them without data
    if c.rng.chance(1, 10) { for _ in 0..c.rng.range(300, 3000) { let n = if c.rng.chance(1, 50) { c.rng.below(5) } else { 0 }; p16(&mut x, 0x7875); p16(&mut x, n); x.extend(vec![1; n]); } }
    let comment: Vec<u8> = (0..c.rng.below(20)).map(|_| b'c').collect();
    p32(&mut o, 0x02014b50); p16(&mut o, 45); p16(&mut o, 45); p16(&mut o, flags); p16(&mut o, if bad == 3 { 9 } else { method }); p16(&mut o, 0); p16(&mut o, 0);
    p32(&mut o, if bad == 4 { crc ^ 1 } else { crc }); p32(&mut o, if z_size { 0xffffffff } else { csize }); p32(&mut o, if z_un { 0xffffffff } else { data.len() as u64 });
    p16(&mut o, name.len()); p16(&mut o, x.len()); p16(&mut o, comment.len()); p16(&mut o, if told == 1 { *c.rng.pick(&[1usize, 2, 255, 256, 0xfffe]) } else if c.rng.chance(1, 5) { 0xffff } else { 0 }); p16(&mut o, 0); p32(&mut o, 0); p32(&mut o, if z_off { 0xffffffff } else { local });
    o.extend_from_slice(name.as_bytes()); o.extend_from_slice(&x); o.extend_from_slice(&comment);
    let cdn = o.len() as u64 - cd;
    let zip64 = told > 1 || c.rng.chance(1, 2);
    let many = if bad == 5 { *c.rng.pick(&[0usize, 2, 3]) } else { 1 };
    // the number of entries is told twice, and has to be one in both places
    let (here, many) = if bad == 5 && c.rng.chance(1, 2) { if c.rng.chance(1, 2) { (many, 1) } else { (1, many) } } else { (many, many) };
    let at64 = o.len() as u64;
    if zip64 {
        p32(&mut o, 0x06064b50); p64(&mut o, 44); p16(&mut o, 45); p16(&mut o, 45); let (d1, d2) = if told == 2 { *c.rng.pick(&[(0, 1), (1, 0), (1, 1), (1 << 16, 1 << 16)]) } else { (0, 0) };
        let (m1, m2) = if told == 3 { *c.rng.pick(&[(1 << 32, 0), (0, 1 << 32), (1 << 32, 1 << 32), (1, 0), (0, 1)]) } else { (0, 0) };
        p32(&mut o, d1); p32(&mut o, d2); p64(&mut o, here as u64 + m1); p64(&mut o, many as u64 + m2); p64(&mut o, cdn); p64(&mut o, cd);
        p32(&mut o, 0x07064b50); let (d, of) = if told == 4 { *c.rng.pick(&[(0, 2), (1, 2), (1, 1), (0, 3), (0, 0x10001)]) } else { (0, 1) };
        p32(&mut o, d); p64(&mut o, at64); p32(&mut o, of);
    }
    let note: Vec<u8> = (0..*c.rng.pick(&[0usize, 0, 1, 7, 300, 65535])).map(|_| b'z').collect();
    let note = if c.rng.chance(1, 4) { note_with_signatures(c) } else { note };
    let disks = if bad == 6 && told == 0 { *c.rng.pick(&[(0usize, 1usize), (1, 1), (1, 0), (3, 3)]) } else { (0, 0) };
    p32(&mut o, 0x06054b50); p16(&mut o, disks.0); p16(&mut o, disks.1); p16(&mut o, here); p16(&mut o, many); p32(&mut o, cdn); p32(&mut o, if zip64 { 0xffffffff } else { cd }); p16(&mut o, note.len());
    o.extend_from_slice(&note);
    let how = format!("method {} zip64 records {} (sizes {} {} offset {}) descriptor {} local extra {} extra {} entry comment {} archive comment {} prefix {} name before the content {:?}", method, zip64, z_size, z_un, z_off, descriptor, lx.len(), x.len(), comment.len(), note.len(), local, { let mut t = local_name.clone(); cut(&mut t, 50); t });
    Zip { bytes: o, name, how }
}
// an archive comment that contains signatures of the records of an archive, and is no end of an archive itself
fn note_with_signatures(c: &mut Ctx) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..c.rng.range(1, 4) {
        for _ in 0..c.rng.below(30) { o.push(c.rng.next() as u8); }
        p32(&mut o, *c.rng.pick(&[0x06054b50usize, 0x06054b50, 0x07064b50, 0x06064b50, 0x02014b50]) as u32 as _);
    }
    for _ in 0..c.rng.below(60) { o.push(*c.rng.pick(&[0u8, b'z', 255])); }
    if c.rng.chance(1, 4) { let n = *c.rng.pick(&[250usize, 5000, 32_800, 60_000]); o.extend(vec![b'y'; n]); }
    for k in 0..o.len().saturating_sub(21) { if o[k..k + 4] == *b"PK\x05\x06" && o[k + 20] as usize + 256 * o[k + 21] as usize == o.len() - k - 22 { o[k] = b'Q'; } }
    o
}
fn unzip(b: Vec<u8>, sizes: &[usize]) -> Result<(Vec<u8>, String), String> {
    let (r, n) = new_reader_for_single_file_zip_archive(Cursor::new(b)).map_err(|e| e.to_string())?;
    match read_all(r, sizes) { (v, None) => Ok((v, n)), (_, Some(e)) => Err(e) }
}
pub fn zip(c: &mut Ctx) {
    let path = c.scratch("z.zip");
    for q in 0..c.n(1500) {
        let data = gen_data(c);
        let prefix = c.rng.chance(1, 6);
        let z = zip_of(c, &data, 0, prefix);
        let sizes: Vec<usize> = (0..c.rng.range(1, 3)).map(|_| *c.rng.pick(&[1usize, 3, 10, 1000, 8192, 100_000])).collect();
        let sizes: Vec<usize> = if data.len() > 20_000 { sizes.iter().map(|s| (*s).max(500)).collect() } else { sizes };
        let d = format!("{} content={} archive={}", z.how, hex(&data), hex(&z.bytes));
        c.case("complete", d.clone(), || {
            same("is zip", &er(is_zip(&mut Cursor::new(&z.bytes)))?, &!prefix)?;
            let (got, n) = unzip(z.bytes.clone(), &sizes).map_err(|e| format!("error: {}", e))?;
            if got != data { return Err(format!("unpacked {} bytes, expected {}", got.len(), data.len())); }
            same("name", &n, &z.name)
        });
        if z.bytes.len() < 5000 {
            for _ in 0..4 {
                let mut b = z.bytes.clone();
                let what = if c.rng.chance(1, 4) { let k = c.rng.below(b.len()); b.truncate(k); format!("cut at {}", k) } else { let k = if c.rng.chance(1, 2) { c.rng.below(b.len()) } else { b.len() - 1 - c.rng.below(b.len().min(160)) }; let x = c.rng.range(1, 255) as u8; b[k] ^= x; format!("byte {} changed by {:02x}", k, x) };
                c.case("damaged", format!("{} {}", what, d), || { match unzip(b, &sizes) { Ok((got, _)) if got != data => Err(format!("{} bytes that are not the content, and no error", got.len())), _ => Ok(()) } });
            }
        }
        if q % 3 == 0 {
            let bad = c.rng.range(1, 6);
            if bad == 2 && data.is_empty() { continue; }
            let z = zip_of(c, &data, bad, false);
            let sizes = if data.len() < 20_000 && c.rng.chance(1, 2) { vec![1] } else { sizes.clone() };
            let what = ["", "encrypted", "packed bytes changed", "unknown method", "wrong crc", "not one entry", "more than one disk"][bad];
            c.case("refused", format!("{} {} archive={}", what, z.how, hex(&z.bytes)), || match unzip(z.bytes, &sizes) { Ok((got, _)) if bad != 2 || got != data => Err("no error".into()), _ => Ok(()) });
        }
        if q % 5 == 0 {
            let (text, rows) = csv_content(c);
            let z = zip_of(c, text.as_bytes(), 0, false);
            let named = c.rng.chance(1, 2);
            c.case("source", format!("{} of {:?}", z.how, text), || {
                let p = if named { path.clone() } else { path.with_extension("bin") };
                er(std::fs::write(&p, &z.bytes))?;
                let mut s = show_err(csv_factory(TimestampUnits::Nanos)?.create_source_from_path(p.to_str().unwrap()))?;
                let got = drain(&mut s);
                let _ = std::fs::remove_file(&p);
                same("rows", &got, &(rows, None))
            });
        }
    }
    for b in vec![vec![], vec![b'P'], b"PK\x03".to_vec(), b"PK\x03\x04".to_vec(), b"PK\x05\x06".to_vec(), vec![0; 30], b"PK\x05\x06\0\0\0\0\x01\0\x01\0\0\0\0\0\0\0\0\0\0\0".to_vec()] {
        c.case("tiny", hex(&b), || { er(is_zip(&mut Cursor::new(&b)))?; if unzip(b, &[10]).is_ok() { Err("no error".into()) } else { Ok(()) } });
    }
    if let Some(true) = std::process::Command::new("zip").arg("-v").output().ok().map(|o| o.status.success()) {
        for (i, n) in [1usize, 100, 70_000].iter().enumerate() {
            let data: Vec<u8> = (0..*n).map(|k| b"0123456789,\n"[(k * k + i) % 12]).collect();
            let dir = c.scratch("cli");
            let _ = std::fs::create_dir_all(&dir);
            for args in vec![vec!["-q", "-0"], vec!["-q", "-9"], vec!["-q", "-Z", "bzip2"], vec!["-q", "-fz"]] {
                let (f, a) = (dir.join("in.csv"), dir.join("o.zip"));
                let _ = std::fs::remove_file(&a);
                std::fs::write(&f, &data).unwrap();
                if !std::process::Command::new("zip").args(&args).arg(&a).arg("in.csv").current_dir(&dir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_or(false, |s| s.success()) { continue; }
                let b = std::fs::read(&a).unwrap();
                let m = u16::from_le_bytes([b[8], b[9]]);
                c.case("complete", format!("archive of the zip tool {:?}, method {}, {} bytes", args, m, n), || { let (got, name) = unzip(b, &[1000])?; if got != data { return Err("not the content".into()); } same("name", &name, &"in.csv".to_string()) });
            }
        }
    }
}

// ---------------------------------------------------------------- which format an input is read as
fn csv_content(c: &mut Ctx) -> (String, Vec<R>) {
    let n = c.rng.range(1, 3);
    let m = *c.rng.pick(&[1usize, 2, 5, 40, 400]);
    let rows: Vec<R> = (0..m).map(|_| { let t = c.rng.next() % 1000; (t, std::iter::once(V::S(t.to_string())).chain((0..n).map(|_| V::S(format!("v{}", c.rng.below(10_000))))).collect()) }).collect();
    let mut t = std::iter::once("ts".to_string()).chain((0..n).map(|i| format!("c{}", i))).collect::<Vec<_>>().join(",") + "\n";
    for r in &rows { t += &r.1.iter().map(|v| if let V::S(s) = v { s.clone() } else { String::new() }).collect::<Vec<_>>().join(","); t.push('\n'); }
    (t, rows)
}
fn dc_content(c: &mut Ctx) -> (Vec<u8>, Vec<R>) {
    let m = *c.rng.pick(&[0usize, 1, 2, 5, 40]);
    // text throughout, so that only the leading number tells it apart from csv
    let rows: Vec<R> = (0..m).map(|_| (0x3130_3130_3130_3130 + c.rng.below(9) as u64, vec![V::Int(0x41424344 + c.rng.below(9) as i32)])).collect();
    (ref_encode(&["a".into()], &[FieldType::Int], &rows, b""), rows)
}
#[derive(Clone)]
struct MineFactory;
struct Mine(Header);
impl Source for Mine { fn header(&self) -> &Header { &self.0 } fn next_row(&mut self) -> CliResult<Option<chopper::chopper::types::Row>> { Err(Error::from("mine")) } }
impl SourceFactory for MineFactory {
    fn can_create_from_format(&self, f: &String) -> bool { f.ends_with(".mine") }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn Read>>) -> bool { p.get_buf().starts_with(b"mine") }
    fn create_source(&mut self, _: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> { Ok(Box::new(Mine(header(&["a"], FieldType::Int)))) }
    fn box_clone(&self) -> Box<dyn SourceFactory> { Box::new(self.clone()) }
}
pub fn factory(mine: bool) -> Result<InputFactory, String> {
    use chopper::source::csv_configs::*;
    use chopper::cli::util::YesNoAuto;
    use chopper::util::tz::ChopperTz;
    let cfg = show_err(CSVInputConfig::new(None, YesNoAuto::Auto, TimestampConfig::new(TimestampColConfig::Index(0), TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails())))?;
    let u: Option<Vec<Box<dyn SourceFactory>>> = if mine { Some(vec![Box::new(MineFactory)]) } else { None };
    show_err(InputFactory::new(cfg, u, None))
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Kind { Csv, Dc, Mine, Junk }
pub fn input_format(c: &mut Ctx) {
    let dir = c.scratch("in");
    let _ = std::fs::create_dir_all(&dir);
    let mut q = 0;
    let serve = |path: &std::path::Path, text: Vec<u8>| er(std::fs::write(path, text));
    for _ in 0..c.n(900) {
        q += 1;
        let k = *c.rng.pick(&[Kind::Csv, Kind::Csv, Kind::Dc, Kind::Dc, Kind::Mine, Kind::Junk]);
        let (mut data, rows) = match k {
            Kind::Csv => { let (t, r) = csv_content(c); (t.into_bytes(), r) }
            Kind::Dc => dc_content(c),
            Kind::Mine => (b"mine!".to_vec(), vec![]),
            Kind::Junk => (vec![0xff, 0xfe, b'\n', 0x80, b'\n', 0xc0, 1, 2, 3], vec![]),
        };
        let mut ext = "";
        let packed = c.rng.chance(2, 3);
        let mut how = "not compressed".to_string();
        if packed {
            if c.rng.chance(1, 4) { let z = zip_of(c, &data, 0, false); data = z.bytes; how = format!("zip with {:?}", z.name); ext = ".zip"; if z.name.ends_with(".csv") && k != Kind::Csv { continue; } }
            else { let z = any_told(c, &data); data = z.bytes; how = z.how; ext = z.ext; }
        }
        let kext = match k { Kind::Csv => ".csv", Kind::Dc => ".dc", Kind::Mine => ".mine", Kind::Junk => "" };
        // how the reader gets to know: a: full name, b: only the compression in the name, c: nothing, d: given by the user (and a wrong name), e: a name without a meaning
        let way = c.rng.below(6);
        let zipped = ext == ".zip";
        let (name, fmt) = match way {
            0 => (format!("f{}{}", kext, ext), InputFormat::Auto),
            1 => (format!("f{}", ext), InputFormat::Auto),
            2 => ("f".to_string(), InputFormat::Auto),
            3 => (format!("f{}", c.rng.pick(&[".csv", ".dc", ".gz", ".zst", ".txt", ".mine"])), InputFormat::Extension(format!("{}{}", kext, if zipped { "" } else { ext }))),
            4 => (format!("f{}", c.rng.pick(&[".csv", ".dc", ""])), InputFormat::Extension(format!("{}{}", kext, if zipped { "" } else { ext }).trim_start_matches('.').to_string())),
            _ => (c.rng.pick(&["f.data.old", "f.data.old", "f.dat", "f.bin", "f.csv.old", "f.dc.1", "f.zip.part", "f.gz.tmp", "fcsv", "f.", "f.tsv", "f.log", "f.xdc", "f.CSV", "f.Zip", "f.csv ", "f.dc~"]).to_string(), InputFormat::Auto),
        };
        if way == 3 && zipped && k == Kind::Junk { continue; }
        // an unknown user given format with no meaning is an error for junk
        let mine = k == Kind::Mine || c.rng.chance(1, 3);
        let p = dir.join(format!("{}_{}", q, name));
        c.case("format", format!("{:?} content, {}, file {:?}, format {:?}, user factory {}", k, how, name, fmt, mine), || {
            serve(&p, data)?;
            let r = factory(mine)?.create_source_from_input(&Input { input: InputType::Path(p.to_str().unwrap().to_string()), format: fmt });
            let _ = std::fs::remove_file(&p);
            match (k, r) {
                (Kind::Junk, Ok(_)) => Err("contents of no known format were accepted".into()),
                (Kind::Junk, Err(_)) => Ok(()),
                (_, Err(e)) => Err(format!("error: {}", e)),
                (Kind::Mine, Ok(mut s)) => { let (v, e) = drain(&mut s); if v.is_empty() && e.as_ref().map_or(false, |e| e.contains("mine")) { Ok(()) } else { Err(format!("not read by the user's factory: {:?} {:?}", v, e)) } }
                (_, Ok(mut s)) => same("rows", &drain(&mut s), &(rows, None)),
            }
        });
    }
    // reads of the file that fail part of the way: an error, or everything (where the rest was not needed, or was read again)
    for q in 0..c.n(300) {
        let (mut data, rows, kext) = if q % 2 == 0 { let (t, r) = csv_content(c); (t.into_bytes(), r, ".csv") } else { let (t, r) = dc_content(c); (t, r, ".dc") };
        let mut ext = "";
        let mut how = "not compressed".to_string();
        match c.rng.below(4) { 0 => {} 1 => { let z = zip_of(c, &data, 0, false); data = z.bytes; how = "zip".into(); ext = ".zip"; if z.name.ends_with(".csv") != (q % 2 == 0) && z.name.contains('.') { continue; } } _ => { let z = any_told(c, &data); data = z.bytes; how = z.how; ext = z.ext; } }
        let fmt = if ext == ".zip" || c.rng.chance(1, 2) { InputFormat::Auto } else { InputFormat::Extension(format!("{}{}", kext, ext)) };
        let p = dir.join(format!("r{}{}", kext, ext));
        let x = Fails { after: c.rng.below(data.len().max(1)), errno: *c.rng.pick(&ERRNOS), once: c.rng.chance(1, 2) };
        c.case("read-failure", format!("{} {} of {} bytes, format {:?}, reads fail after {} bytes with errno {} once={}", kext, how, data.len(), fmt, x.after, x.errno, x.once), || {
            serve(&p, data)?;
            let mut f = factory(false)?;
            let input = Input { input: InputType::Path(p.to_str().unwrap().to_string()), format: fmt };
            let got = with_failing_reads(x, || f.create_source_from_input(&input).map(|mut s| drain(&mut s)));
            let _ = std::fs::remove_file(&p);
            match got { Err(_) | Ok((_, Some(_))) => Ok(()), Ok((got, None)) => same("rows, without an error", &got, &rows) }
        });
    }
    // stdin: a given format, or what it contains
    for q in 0..c.n(60) {
        let (data, kext) = if q % 2 == 0 { (csv_content(c).0.into_bytes(), ".csv") } else { (dc_content(c).0, ".dc") };
        let z = if c.rng.chance(1, 2) { any_told(c, &data) } else { Comp { bytes: data.clone(), ext: "", ends: vec![], checked: false, how: "not compressed".into(), bare: vec![] } };
        let told = c.rng.chance(1, 2);
        c.case("stdin", format!("{} {} on stdin, format given: {} content {}", kext, z.how, told, hex(&data)), || {
            let opts = ["-E", "--csv-in-epoch", "ns", "--csv-in-has-header", "yes"];
            let mut a: Vec<String> = opts.iter().map(|x| x.to_string()).collect();
            if told { a.push("-f".into()); a.push(format!("{}{}", kext, z.ext)); }
            er(std::fs::write(dir.join(format!("stdin{}", kext)), &data))?;
            let got = crate::p_cli::run(&dir, &a, Some(z.bytes.clone()), None)?;
            let want = crate::p_cli::run(&dir, &opts.iter().map(|x| x.to_string()).chain(vec![format!("stdin{}", kext)]).collect::<Vec<_>>(), None, None)?;
            if got.code != Some(0) || want.code != Some(0) { return Err(format!("exit status {:?} (of a file {:?}): {}", got.code, want.code, got.err)); }
            same("output", &String::from_utf8_lossy(&got.out), &String::from_utf8_lossy(&want.out))
        });
    }
    // a directory read as a format says
    for fmt in &["dc", ".csv", "csv.gz", "dc.zst"] {
        let (mut want, mut bodies, bare) = (vec![], vec![], fmt.trim_start_matches('.'));
        for k in 0..3u64 {
            let (data, rows) = if bare.starts_with("dc") { (ref_encode(&["a".into()], &[FieldType::Int], &[(k, vec![V::Int(k as i32)])], b""), vec![(k, vec![V::Int(k as i32)])]) } else { (format!("time,a\n150000000{},q{}\n", k, k).into_bytes(), vec![(1_500_000_000 + k, vec![V::S(format!("150000000{}", k)), V::S(format!("q{}", k))])]) };
            bodies.push(if bare.ends_with(".gz") { gz(c, &data).bytes } else if bare.ends_with(".zst") { zst(c, &data).bytes } else { data });
            want.extend(rows);
        }
        c.case("format", format!("a directory of files of any names, all of format {}", fmt), || {
            let d = dir.join("as");
            let _ = std::fs::remove_dir_all(&d);
            er(std::fs::create_dir_all(&d))?;
            for (n, b) in ["f0.csv", "f1.dc", "f2.gz"].iter().zip(&bodies) { er(std::fs::write(d.join(n), b))?; }
            let mut s = show_err(factory(false)?.create_source_from_input(&Input { input: InputType::Path(d.to_str().unwrap().to_string()), format: InputFormat::Extension(fmt.to_string()) }))?;
            same("rows", &drain(&mut s), &(want, None))
        });
    }
    // a suffix counts only as it is spelled, so these are told by their contents
    for suffix in &[".GZ", ".Gz", ".ZST", ".LZ4", ".Lzf", ".ZIP", ".gz_", ".gzip", ".zst1", ".z", ".DC", ".dc2", ".gz.", ".zip~", ".csv.GZ", ".dc.gz.old"] {
        let (text, rows) = csv_content(c);
        let (table, drows) = dc_content(c);
        c.case("format", format!("csv and dc in files with the suffix {}", suffix), || {
            let p = dir.join(format!("cased{}", suffix));
            for (body, want) in vec![(text.clone().into_bytes(), &rows), (table.clone(), &drows)] {
                serve(&p, body)?;
                let mut s = show_err(factory(false)?.create_source_from_path(p.to_str().unwrap()))?;
                same("rows", &drain(&mut s), &(want.clone(), None))?;
            }
            Ok(())
        });
    }
    // compressed twice where the name or the given format tells of once
    for (i, (name, fmt)) in [("twice.csv.gz", None), ("twice.gz", None), ("twice.dc.gz", None), ("twice", Some("csv.gz")), ("twice.x", Some(".dc.gz")), ("twice.csv.zst", None), ("twice.dc.zst", None), ("twice.zst", None)].iter().enumerate() {
        let body = if name.contains("dc") || fmt.map_or(false, |f| f.contains("dc")) { ref_encode(&["a".into()], &[FieldType::Int], &[(1, vec![V::Int(1)])], b"") } else { b"time,a\n1500000000,2\n".to_vec() };
        for inner in 0..2 {
            let once = if inner == 0 { gz(c, &body).bytes } else { zst(c, &body).bytes };
            let twice = if name.ends_with(".zst") { zst(c, &once).bytes } else { gz(c, &once).bytes };
            c.case("user-format", format!("#{} {} compressed twice, the file {:?}, format {:?}", i, ["gz and then again", "zst and then again"][inner], name, fmt), || {
                let p = dir.join(name);
                serve(&p, twice)?;
                let f = match fmt { Some(f) => InputFormat::Extension(f.to_string()), None => InputFormat::Auto };
                match factory(false)?.create_source_from_input(&Input { input: InputType::Path(p.to_str().unwrap().to_string()), format: f }) { Err(_) => Ok(()), Ok(mut s) => { let (r, e) = drain(&mut s); if e.is_some() { Ok(()) } else { Err(format!("accepted: {} rows", r.len())) } } }
            });
        }
    }
    // formats nobody knows
    for f in &[".DC", "DC", ".Dc", "CSV", ".Csv", "txt", "dcx", "xdc", "csv2", ".dc.", "gz", ".csv.GZ", ".dc.Zst", ".csv.zip2", "mine2"] {
        c.case("unknown", format!("format {:?}", f), || {
            let table = ref_encode(&["a".into()], &[FieldType::Int], &[(1, vec![V::Int(1)])], b"");
            let packed = { let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::default()); er(std::io::Write::write_all(&mut w, &table))?; er(w.finish())? };
            for (name, body) in &[("unknown.csv", b"time,a\n1500000000,2\n".to_vec()), ("unknown.dc", table.clone()), ("unknown.dc.gz", packed)] {
                let p = dir.join(name);
                er(std::fs::write(&p, body))?;
                if factory(false)?.create_source_from_input(&Input { input: InputType::Path(p.to_str().unwrap().to_string()), format: InputFormat::Extension(f.to_string()) }).is_ok() { return Err(format!("taken for {}", name)); }
            }
            Ok(())
        });
    }
    // text that begins almost like one of the formats is still text
    let almost: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = vec![];
        let whole: [&[u8]; 5] = [b"\0\0\0\0DCAT\0\x02", b"\x04\x22\x4d\x18", b"LZ4Block", b"ZV\x01", b"PK\x03\x04"];
        for w in &whole {
            for k in 0..w.len() { for x in &[0u8, 1, 3, 5, b'A', b'l'] { let mut m = w.to_vec(); if m[k] != *x && !(w.len() == 3 && k == 2 && *x == 0) { m[k] = *x; v.push(m); } } }
            for k in 1..w.len() { let mut m = w[..k].to_vec(); m.push(b'q'); v.push(m); }
        }
        v.push(b"\0\0\0\0DCAT\x02".to_vec()); v.push(b"x\0\0\0\0DCAT\0\x02".to_vec()); v.push(b"xZV\x01".to_vec());
        v
    };
    for m in almost {
        let first = String::from_utf8(m).unwrap();
        if first.starts_with('"') { continue; }
        let text = format!("{},x\n5,y\n", first);
        for name in &["almost", "almost.txt"] {
            let p = dir.join(name);
            c.case("almost", format!("{:?} in the file {:?}", text, name), || {
                serve(&p, text.clone().into_bytes())?;
                let mut s = show_err(factory(false)?.create_source_from_path(p.to_str().unwrap()))?;
                same("names", s.header().field_names(), &vec![first.clone(), "x".to_string()])?;
                same("rows", &drain(&mut s), &(vec![(5, vec![V::S("5".into()), V::S("y".into())])], None))
            });
        }
    }
    // the name in an archive tells the format, in whichever folder of the archive the file is
    for inner in &["x.csv", "dir/x.csv", "a/b/x.csv", "/x.csv", "a.dc/x.csv"] { for packed in &[false, true] {
        let name = format!("{}{}", inner, if *packed { ".gz" } else { "" });
        let text: &[u8] = b"ZV\x01,x\n5,y\n";
        let body = if *packed { gz(c, text).bytes } else { text.to_vec() };
        c.case("almost", format!("{:?} in a zip, named {:?}", String::from_utf8_lossy(text), name), || {
            let mut h = crc32fast::Hasher::new();
            h.update(&body);
            let (crc, n) = (h.finalize() as u64, body.len() as u64);
            let mut o = vec![];
            for k in 0..2 {
                if k == 0 { p32(&mut o, 0x04034b50); } else { p32(&mut o, 0x02014b50); p16(&mut o, 20); }
                p16(&mut o, 20); p16(&mut o, 0); p16(&mut o, 0); p32(&mut o, 0); p32(&mut o, crc); p32(&mut o, n); p32(&mut o, n); p16(&mut o, name.len()); p16(&mut o, 0);
                if k == 1 { p16(&mut o, 0); p16(&mut o, 0); p16(&mut o, 0); p32(&mut o, 0); p32(&mut o, 0); }
                o.extend_from_slice(name.as_bytes());
                if k == 0 { o.extend_from_slice(&body); }
            }
            let cd = 30 + name.len() as u64 + n;
            p32(&mut o, 0x06054b50); p16(&mut o, 0); p16(&mut o, 0); p16(&mut o, 1); p16(&mut o, 1); p32(&mut o, 46 + name.len() as u64); p32(&mut o, cd); p16(&mut o, 0);
            let p = dir.join("folders.zip");
            serve(&p, o)?;
            let mut s = show_err(factory(false)?.create_source_from_path(p.to_str().unwrap()))?;
            same("names", s.header().field_names(), &vec!["ZV\x01".to_string(), "x".to_string()])?;
            same("rows", &drain(&mut s), &(vec![(5, vec![V::S("5".into()), V::S("y".into())])], None))
        });
    } }
    // a format given by the user is not second guessed
    for (fmt, body) in vec![("csv", b"DCAT".to_vec()), (".dc", b"a,b\n1,2\n".to_vec()), ("gz", b"a,b\n1,2\n".to_vec()), ("csv.gz", b"a,b\n1,2\n".to_vec()), ("csv.zst", b"a,b\n1,2\n".to_vec()), ("csv.lz4", b"a,b\n1,2\n".to_vec()), ("foo", b"a,b\n1,2\n".to_vec()), ("zip", b"a,b\n1,2\n".to_vec())] {
        c.case("user-format", format!("{} for {:?}", fmt, body), || {
            let p = dir.join("u.csv");
            serve(&p, body.clone())?;
            let r = factory(false)?.create_source_from_input(&Input { input: InputType::Path(p.to_str().unwrap().to_string()), format: InputFormat::Extension(fmt.into()) });
            match (fmt, r) { ("csv", Ok(s)) => same("header", s.header().field_names(), &vec!["DCAT".to_string()]).or_else(|_| same("header", s.header().field_names(), &vec!["col_0".to_string()])), ("csv", Err(_)) => Ok(()), (_, Ok(_)) => Err("accepted".into()), (_, Err(_)) => Ok(()) }
        });
    }
    for e in &["", ".old", ".csv", ".dc", ".dc.gz"] { c.case("empty", format!("no bytes in a file with the name e{}", e), || {
        let p = dir.join(format!("e{}", e));
        serve(&p, vec![])?;
        match factory(false)?.create_source_from_path(p.to_str().unwrap()) { Err(_) => Ok(()), Ok(mut s) => same("rows", &drain(&mut s), &(vec![], None)) }
    }); }
    c.case("missing", "a path that does not exist".into(), || if factory(false)?.create_source_from_path(dir.join("nope").to_str().unwrap()).is_ok() { Err("no error".into()) } else { Ok(()) });
    // without csv only the others
    c.case("without-csv", "csv content and an input factory without csv".into(), || { let p = dir.join("w.csv"); serve(&p, b"a,b\n1,2\n".to_vec())?; if show_err(InputFactory::new_without_csv(None, None))?.create_source_from_path(p.to_str().unwrap()).is_ok() { Err("accepted".into()) } else { Ok(()) } });
    // http, from this machine
    {
        for i in 0..63 {
            let l2 = match TcpListener::bind("127.0.0.1:0") { Ok(l) => l, Err(_) => break };
            let port = l2.local_addr().unwrap().port();
            let (text, rows) = csv_content(c);
            let packed = i % 3 == 1;
            let body = if packed { gz(c, text.as_bytes()).bytes } else { text.clone().into_bytes() };
            let mode = i % 7;
            let status = ["300 Multiple Choices", "304 Not Modified", "500 Internal Server Error", "403 Forbidden", "399 Nothing"][i / 7 % 5];
            let name = ["d.csv", "d", "d.bin"][i / 7 % 3].to_string() + if packed && i % 2 == 0 { ".gz" } else { "" };
            let name = if packed && name == "d.csv" { "d.csv.gz".to_string() } else { name };
            c.case("http", format!("http mode {} file {} compressed {} of {:?}", ["length", "chunked", "status 404", "connection closed early", "chunked and closed early", status, status][mode], name, packed, text), || {
                let t = std::thread::spawn(move || {
                    if let Ok((mut s, _)) = l2.accept() {
                        let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5)));
                        let mut b = vec![];
                        let mut x = [0u8; 500];
                        while !b.windows(4).any(|w| w == b"\r\n\r\n") { match s.read(&mut x) { Ok(n) if n > 0 => b.extend_from_slice(&x[..n]), _ => break } }
                        let mut o = vec![];
                        match mode {
                            0 => { o.extend_from_slice(format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes()); o.extend_from_slice(&body); }
                            1 => { o.extend_from_slice(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n"); for p in body.chunks(37) { o.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes()); o.extend_from_slice(p); o.extend_from_slice(b"\r\n"); } o.extend_from_slice(b"0\r\n\r\n"); }
                            2 => { o.extend_from_slice(b"HTTP/1.1 404 Not Found\r\nContent-Length: 8\r\nConnection: close\r\n\r\na,b\n1,2\n"); }
                            5 | 6 => { o.extend_from_slice(format!("HTTP/1.1 {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, body.len()).as_bytes()); o.extend_from_slice(&body); }
                            4 => { o.extend_from_slice(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"); for p in body.chunks(37) { o.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes()); o.extend_from_slice(p); o.extend_from_slice(b"\r\n"); } }
                            _ => { o.extend_from_slice(format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n{}\r\n", body.len() + 100, if i % 2 == 0 { "Connection: close\r\n" } else { "" }).as_bytes()); o.extend_from_slice(&body); }
                        }
                        let _ = s.write_all(&o);
                    }
                });
                let r = factory(false)?.create_source_from_path(&format!("http://127.0.0.1:{}/x/{}", port, name));
                let out = match r { Ok(mut s) => { let (v, e) = drain(&mut s); if e.is_some() { Err(e.unwrap()) } else { Ok(v) } } Err(e) => Err(format!("{}", e)) };
                if (mode == 2 || mode > 4) && out.is_ok() { return Err("a page that is not the data was read as data".into()); }
                let _ = std::net::TcpStream::connect_timeout(&std::net::SocketAddr::from(([127, 0, 0, 1], port)), std::time::Duration::from_secs(1)).map(|_| ()); // in case nobody asked
                let _ = t.join();
                match mode { 0 | 1 => match out { Ok(v) => same("rows", &v, &rows), Err(e) => Err(format!("error: {}", e)) }, 3 | 4 => if out.is_ok() && !packed { Err("a transfer that was cut off was taken as complete".into()) } else { Ok(()) }, _ => Ok(()) }
            });
        }
        // read in pieces of every size: all of the bytes, and an error where some are missing
        for i in 0..60usize {
            let l2 = match TcpListener::bind("127.0.0.1:0") { Ok(l) => l, Err(_) => break };
            let port = l2.local_addr().unwrap().port();
            let size = [1usize, 2, 7, 8192, 20_000][i % 5];
            let len = [0usize, 1, 2, 100, 8191, 8192, 30_000][i % 7] / if size < 7 { 20 } else { 1 };
            let missing = [0usize, 0, 1, 5][i % 4];
            let body: Vec<u8> = (0..len).map(|k| (k * 31 + k / 256) as u8).collect();
            c.case("http", format!("{} bytes read {} at a time, with {} more announced", len, size, missing), || {
                use chopper::transport::streaming::streaming_transport::StreamingTransport;
                let b2 = body.clone();
                let t = std::thread::spawn(move || {
                    if let Ok((mut s, _)) = l2.accept() {
                        let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5)));
                        let mut b = vec![];
                        let mut x = [0u8; 500];
                        while !b.windows(4).any(|w| w == b"\r\n\r\n") { match s.read(&mut x) { Ok(n) if n > 0 => b.extend_from_slice(&x[..n]), _ => break } }
                        let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b2.len() + missing).into_bytes();
                        o.extend_from_slice(&b2);
                        let _ = s.write_all(&o);
                    }
                });
                let r = chopper::transport::streaming::http::HttpTransport.open(std::path::Path::new(&format!("http://127.0.0.1:{}/x", port)));
                let (mut got, mut err) = (vec![], None);
                match r { Err(e) => err = Some(format!("{}", e)), Ok(mut r) => loop { let mut b = vec![0u8; size]; match r.read(&mut b) { Ok(0) => break, Ok(n) => got.extend_from_slice(&b[..n]), Err(e) => { err = Some(format!("{}", e)); break } } if got.len() > len { break; } } }
                let _ = std::net::TcpStream::connect_timeout(&std::net::SocketAddr::from(([127, 0, 0, 1], port)), std::time::Duration::from_secs(1)).map(|_| ());
                let _ = t.join();
                match (missing, err) { (0, Some(e)) => Err(format!("error: {}", e)), (0, None) => same("bytes", &got, &body), (_, None) => Err("a transfer that was cut off was taken as complete".into()), _ => Ok(()) }
            });
        }
    }
}
