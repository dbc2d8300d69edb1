// merge-order, time-range, graph-flow, header-flow, error-stop: the driver and the graphs
use crate::common::*;
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, Header, Row, TimestampRange, TIMESTAMP_RANGE_ALL};
use chopper::driver::driver::Driver;
use chopper::error::CliResult;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use std::cell::RefCell;
use std::rc::Rc;

pub fn run_driver(sources: Vec<Box<dyn Source>>, chains: Vec<HeaderChain>, range: TimestampRange) -> Result<(), String> {
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = show_err(Driver::new(sources, HeaderGraph::new(chains), range, headers))?;
    let d: &mut dyn ChopperDriver = &mut d;
    show_err(d.drive())
}
fn merge_node(n: usize) -> HeaderNode { let m = MergeJoin::new(n).unwrap(); let t = m.get_new_header_count_tracker(); HeaderNode::MergeHeaderSink(m, t) }
fn split_node(v: Vec<usize>) -> HeaderNode { let s = Split::new(v); let t = s.get_new_header_count_tracker(); HeaderNode::SplitHeaderSink(s, t) }
fn gen_ts(c: &mut Ctx, n: usize, dom: u64, asc: bool) -> Vec<u64> {
    let base = *c.rng.pick(&[0u64, 0, 1_600_000_000_000_000_000, u64::MAX - dom]);
    let mut v: Vec<u64> = (0..n).map(|_| base + c.rng.next() % (dom + 1)).collect();
    if c.rng.chance(1, 6) && n > 0 { v[0] = u64::MAX; }
    if c.rng.chance(1, 6) && n > 0 { v[n - 1] = 0; }
    if asc { v.sort(); }
    v
}
fn gen_sources(c: &mut Ctx, asc: bool) -> Vec<Vec<R>> {
    // some with many sources, some with long ones
    let big = c.rng.below(200);
    let s = if big == 0 { c.rng.range(20, 40) } else if big == 1 { c.rng.range(1, 3) } else { c.rng.range(1, 7) };
    let dom = *c.rng.pick(&[0u64, 1, 2, 5, 1000, u64::MAX / 2]);
    (0..s).map(|k| {
        let n = if big == 1 { c.rng.range(200, 1500) } else { *c.rng.pick(&[0usize, 1, 2, 3, 5, 12, 40]) };
        gen_ts(c, n, dom, asc).into_iter().enumerate().map(|(i, t)| (t, vec![V::Long(k as i64), V::Long(i as i64)])).collect()
    }).collect()
}
fn tag_of(r: &R) -> (usize, usize) { match (&r.1[0], &r.1[1]) { (V::Long(k), V::Long(i)) => (*k as usize, *i as usize), _ => (999, 999) } }
fn mem(rows: &[Vec<R>]) -> Vec<Box<dyn Source>> { rows.iter().map(|r| MemSource::new(header(&["s", "i"], FieldType::Long), r.clone(), false)).collect() }

// every source has its own chain with one recording sink (id = chain); extra: chains without a source
fn own_chains(n: usize, extra: usize, log: &Log) -> Vec<HeaderChain> {
    (0..n + extra).map(|k| HeaderChain::new(vec![HeaderNode::HeaderSink(RecSink::new(k, Act::Pass, log))])).collect()
}
fn merged_chains(n: usize, log: &Log) -> Vec<HeaderChain> {
    let mut v: Vec<HeaderChain> = (0..n).map(|_| HeaderChain::new(vec![HeaderNode::Merge(n)])).collect();
    v.push(HeaderChain::new(vec![merge_node(n), HeaderNode::HeaderSink(RecSink::new(n, Act::Pass, log))]));
    v
}
fn in_range(t: u64, r: &TimestampRange) -> bool { r.begin.map_or(true, |b| t >= b) && r.end.map_or(true, |e| t < e) }

fn check_run(rows: &[Vec<R>], range: TimestampRange, merged: bool, extra: usize, asc: bool) -> Result<(), String> {
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let n = rows.len();
    let chains = if merged { merged_chains(n, &log) } else { own_chains(n, extra, &log) };
    run_driver(mem(rows), chains, range)?;
    let log = log.borrow();
    let mut per: Vec<Vec<R>> = vec![vec![]; n];
    let mut flushes = vec![0usize; n + extra + 1];
    let mut last = 0u64;
    for g in log.iter() {
        match g {
            Got::Row(id, r) => {
                let (k, _) = tag_of(r);
                if k >= n { return Err(format!("a made up row {:?}", r)); }
                if !merged && *id != k { return Err(format!("row of source {} went to chain {}", k, id)); }
                if !merged && flushes[*id] > 0 { return Err(format!("row of source {} after the flush of its chain", k)); }
                if asc { if r.0 < last { return Err(format!("timestamp {} was delivered after {}", r.0, last)); } last = r.0; }
                per[k].push(r.clone());
            }
            Got::Flush(id) => {
                if merged && matches!(log.iter().rposition(|x| matches!(x, Got::Flush(_))).and_then(|p| log.get(p + 1)), Some(Got::Row(..))) { return Err("a row after the last flush".to_string()); }
                flushes[*id] += 1
            }
            Got::Header(..) => {}
        }
    }
    for k in 0..n {
        let want: Vec<R> = rows[k].iter().take_while(|r| range.end.map_or(true, |e| r.0 < e)).filter(|r| in_range(r.0, &range)).cloned().collect();
        same(&format!("rows of source {}", k), &per[k], &want)?;
        if !merged { same(&format!("flushes of chain {}", k), &flushes[k], &1)?; }
    }
    if merged { same("flushes of the merged chain", &flushes[n], &n)?; }
    Ok(())
}
pub fn merge_order(c: &mut Ctx) {
    for q in 0..c.n(6000) {
        let asc = !c.rng.chance(1, 5);
        let rows = gen_sources(c, asc);
        let (merged, extra) = (q % 2 == 0, c.rng.below(3));
        c.case("merge", format!("merged={} ascending={} sources={:?}", merged, asc, rows), || check_run(&rows, TIMESTAMP_RANGE_ALL, merged, extra, asc));
    }
    // many inputs: the earliest row is at the last one, at one in the middle, at every one
    for k in [255usize, 256, 257, 300, 600] { for m in 0..3 {
        let rows: Vec<Vec<R>> = (0..k).map(|s| (0..2usize).map(|i| ((match m { 0 => k - s, 1 => (s * 7919) % k, _ => 5 } + i * 3) as u64, vec![V::Long(s as i64), V::Long(i as i64)])).collect()).collect();
        c.case("merge", format!("{} inputs, shape {}", k, m), || { check_run(&rows, TIMESTAMP_RANGE_ALL, false, 0, true)?; check_run(&rows, TIMESTAMP_RANGE_ALL, true, 0, true) });
    } }
    // all small shapes: up to 3 sources with up to 3 rows over 3 timestamps
    let asc: Vec<Vec<u64>> = { let mut v = vec![vec![]]; for a in 0..3u64 { v.push(vec![a]); for b in a..3 { v.push(vec![a, b]); for d in b..3 { v.push(vec![a, b, d]); } } } v };
    let k = if c.thorough { asc.len() } else { 12 };
    for a in 0..k { for b in 0..k { for d in 0..k {
        let rows: Vec<Vec<R>> = [a, b, d].iter().enumerate().map(|(s, x)| asc[*x].iter().enumerate().map(|(i, t)| (*t, vec![V::Long(s as i64), V::Long(i as i64)])).collect()).collect();
        c.case("merge", format!("small {:?}", rows), || { check_run(&rows, TIMESTAMP_RANGE_ALL, false, 0, true)?; check_run(&rows, TIMESTAMP_RANGE_ALL, true, 0, true) });
    } } }
}
pub fn time_range(c: &mut Ctx) {
    for q in 0..c.n(6000) {
        // an input that is not in time order is read up to its first row at or after the end
        let asc = !c.rng.chance(1, 5);
        let rows = gen_sources(c, asc);
        let mut pool: Vec<u64> = rows.iter().flatten().map(|r| r.0).collect();
        pool.extend_from_slice(&[0, 1, u64::MAX, u64::MAX - 1]);
        let more: Vec<u64> = pool.iter().flat_map(|t| vec![t.saturating_sub(1), t.saturating_add(1)]).collect();
        pool.extend(more);
        let mut b = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&pool)) };
        let mut e = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&pool)) };
        if let (Some(x), Some(y)) = (b, e) { if x > y && !c.rng.chance(1, 4) { b = Some(y); e = Some(x); } }
        let range = TimestampRange { begin: b, end: e };
        let merged = q % 2 == 0;
        c.case("range", format!("begin={:?} end={:?} merged={} sources={:?}", b, e, merged, rows), || check_run(&rows, range, merged, 0, asc));
    }
    // bounds as they are given
    let given: [Option<u64>; 6] = [None, Some(1_500_000_000_000_000_000), Some(1_500_000_000_000_000_001), Some(1_499_999_999_999_999_999), Some(1_600_000_000_000_000_000), Some(630_000_000_000_000_000)];
    for b in &given { for e in &given {
        c.case("range", format!("bounds given as begin={:?} end={:?}", b, e), || {
            let (x, y) = (b.map(|t| t.to_string()), e.map(|t| t.to_string()));
            let r = show_err(TimestampRange::new(x.as_ref().map(|s| s.as_str()), y.as_ref().map(|s| s.as_str()), &chopper::util::tz::ChopperTz::new_always_fails()))?;
            same("range", &(r.begin, r.end), &(*b, *e))
        });
    } }
    // many rows before the begin, and many inputs
    for q in 0..4u64 {
        let (k, n) = if q < 2 { (2usize, 70_000usize) } else { (700, 3) };
        let rows: Vec<Vec<R>> = (0..k).map(|s| (0..n).map(|i| ((i * 3 + s % 3) as u64, vec![V::Long(s as i64), V::Long(i as i64)])).collect()).collect();
        let range = TimestampRange { begin: if q < 2 { Some(3 * n as u64 - 5) } else { Some(1) }, end: if q % 2 == 0 { None } else { Some(3 * n as u64 - 1) } };
        c.case("range", format!("{} inputs of {} rows, from {:?} to {:?}", k, n, range.begin, range.end), || check_run(&rows, TimestampRange { begin: range.begin, end: range.end }, false, 0, true));
    }
    // one row against every small range
    for t in 0..4u64 { for b in 0..6u64 { for e in 0..6u64 {
        let rows: Vec<Vec<R>> = vec![vec![(t, vec![V::Long(0), V::Long(0)]), (t, vec![V::Long(0), V::Long(1)])], vec![(t + 1, vec![V::Long(1), V::Long(0)])]];
        let range = TimestampRange { begin: if b == 5 { None } else { Some(b) }, end: if e == 5 { None } else { Some(e) } };
        c.case("range", format!("t={} begin={:?} end={:?}", t, range.begin, range.end), || check_run(&rows, range, false, 0, true));
    } } }
}

// ---- graphs
#[derive(Clone, Debug)]
enum N { Sink(usize, Act, Option<String>), Merge(usize), Split(Vec<usize>), Join(usize) }
type G = Vec<Vec<N>>;
fn gen_graph(c: &mut Ctx, cols: bool) -> (usize, G) {
    // some with many inputs and chains
    let big = c.rng.chance(1, 200);
    let s = if big { c.rng.range(5, 20) } else { c.rng.range(1, 4) };
    let n = s + if big { c.rng.range(5, 10) } else { c.rng.below(6) };
    let mut g: G = vec![vec![]; n];
    let mut id = 0;
    let mut sink = |c: &mut Ctx| {
        id += 1;
        let act = *c.rng.pick(&[Act::Pass, Act::Pass, Act::Drop, Act::Dup(2), Act::Dup(3), Act::DropOdd, Act::Tag, Act::DupNth(2), Act::DupNth(3), Act::Dup(1), Act::Dup(0), Act::Dup(5), Act::Dup(9), Act::Same(2), Act::Same(3), Act::Back(2), Act::Back(3)]);
        let act = if cols { Act::Pass } else { act };
        N::Sink(id, act, if cols && c.rng.chance(1, 3) { Some(format!("{}{}", if c.rng.chance(1, 3) { "=" } else { "c" }, id)) } else { None })
    };
    // links from lower chains to higher ones
    let mut links: Vec<Vec<N>> = vec![vec![]; n];
    for k in s..n {
        if c.rng.chance(1, 2) {
            let p = c.rng.below(k);
            // often the same chain splits to several
            if let Some(N::Split(v)) = links[p].last_mut() { v.push(k); } else { links[p].push(N::Split(vec![k])); }
            // the same chain more than once, and not in order of number
            if !cols { if let Some(N::Split(v)) = links[p].last_mut() { if c.rng.chance(1, 5) { v.push(k); } if c.rng.chance(1, 4) { v.reverse(); } } }
        } else {
            let m = c.rng.range(1, 3);
            for _ in 0..m { let p = c.rng.below(k); links[p].push(N::Merge(k)); }
            g[k].push(N::Join(m));
        }
    }
    for k in 0..n {
        for _ in 0..c.rng.below(3) { let x = sink(c); g[k].push(x); }
        for l in links[k].clone() {
            g[k].push(l);
            for _ in 0..c.rng.below(2) { let x = sink(c); g[k].push(x); }
        }
        if g[k].is_empty() || k < s && g[k].len() < 2 { let x = sink(c); g[k].push(x); }
    }
    (s, g)
}
fn build(g: &G, log: &Log) -> Vec<HeaderChain> { build_with(g, log, &|_| None) }
fn build_with(g: &G, log: &Log, fail_flush: &dyn Fn(usize) -> Option<usize>) -> Vec<HeaderChain> {
    g.iter().map(|ch| HeaderChain::new(ch.iter().map(|n| match n {
        N::Sink(id, act, col) => HeaderNode::HeaderSink(Box::new(RecSink { id: *id, act: *act, log: log.clone(), seen: 0, add_col: col.clone(), fail_flush: fail_flush(*id), flushes: 0 })),
        N::Merge(t) => HeaderNode::Merge(*t),
        N::Split(v) => split_node(v.clone()),
        N::Join(m) => merge_node(*m),
    }).collect())).collect()
}
struct Model { logs: std::collections::BTreeMap<usize, Vec<Got>>, seen: std::collections::BTreeMap<usize, usize> }
fn go(g: &G, m: &mut Model, c: usize, n: usize, row: &R) {
    if n >= g[c].len() { return; }
    match &g[c][n] {
        N::Sink(id, act, _) => {
            m.logs.entry(*id).or_default().push(Got::Row(*id, row.clone()));
            let s = m.seen.entry(*id).or_insert(0);
            let out = apply(*act, *s, *id, row).unwrap();
            *s += 1;
            for r in out { go(g, m, c, n + 1, &r); }
        }
        N::Merge(t) => { go(g, m, *t, 0, row); go(g, m, c, n + 1, row) }
        N::Split(v) => { for t in v { go(g, m, *t, 0, row); } go(g, m, c, n + 1, row) }
        N::Join(_) => go(g, m, c, n + 1, row),
    }
}
fn fl(g: &G, m: &mut Model, c: usize, n: usize) {
    if n >= g[c].len() { return; }
    match &g[c][n] {
        N::Sink(id, _, _) => m.logs.entry(*id).or_default().push(Got::Flush(*id)),
        N::Merge(t) => fl(g, m, *t, 0),
        N::Split(v) => for t in v { fl(g, m, *t, 0) },
        N::Join(_) => {}
    }
    fl(g, m, c, n + 1)
}
pub fn graph_flow(c: &mut Ctx) {
    for _ in 0..c.n(10000) {
        let (s, g) = gen_graph(c, false);
        // distinct timestamps, so that the order across sources is determined
        let mut rows: Vec<Vec<R>> = vec![vec![]; s];
        let total = if c.rng.chance(1, 300) { c.rng.range(260, 700) } else { c.rng.below(14) };
        for t in 0..total { let k = c.rng.below(s); let i = rows[k].len(); rows[k].push((3 * t as u64 + c.rng.next() % 3, vec![V::Long(k as i64), V::Long(i as i64)])); }
        // some inputs have no columns at all, or have nothing but nulls in them
        let cols: &[&str] = match c.rng.below(8) { 0 => &[], 1 => &["s"], _ => &["s", "i"] };
        if cols.len() < 2 { for r in rows.iter_mut().flatten() { r.1 = vec![V::None; cols.len()]; } }
        // mostly everything, else a part: the end of an input without rows in the range is passed on too
        let (b, e) = if c.rng.chance(2, 3) { (None, None) } else { let lim = |c: &mut Ctx| if c.rng.chance(1, 3) { None } else { Some(c.rng.next() % (3 * total as u64 + 2)) }; (lim(c), lim(c)) };
        let range = TimestampRange { begin: b, end: e };
        c.case("flow", format!("begin={:?} end={:?} chains={:?} rows={:?}", b, e, g, rows), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            run_driver(rows.iter().map(|r| MemSource::new(header(cols, FieldType::Long), r.clone(), false)).collect(), build(&g, &log), TimestampRange { begin: b, end: e })?;
            let mut m = Model { logs: Default::default(), seen: Default::default() };
            let mut all: Vec<(u64, usize, R)> = Vec::new();
            for k in 0..s { for r in &rows[k] { if in_range(r.0, &range) { all.push((r.0, k, r.clone())); } } }
            all.sort_by_key(|x| x.0);
            for (_, k, r) in &all { go(&g, &mut m, *k, 0, r); }
            // compare sink by sink; flushes are compared as a count, and where a sink belongs to one source only, by position
            let mut got: std::collections::BTreeMap<usize, Vec<Got>> = Default::default();
            for e in log.borrow().iter() { match e { Got::Row(id, _) | Got::Flush(id) => got.entry(*id).or_default().push(e.clone()), _ => {} } }
            let mut fm = Model { logs: Default::default(), seen: Default::default() };
            for k in 0..s { fl(&g, &mut fm, k, 0); }
            let ids: Vec<usize> = g.iter().flatten().filter_map(|n| if let N::Sink(id, _, _) = n { Some(*id) } else { None }).collect();
            for id in ids {
                let gi = got.remove(&id).unwrap_or_default();
                let rows_of = |v: &Vec<Got>| v.iter().filter(|x| matches!(x, Got::Row(..))).cloned().collect::<Vec<_>>();
                same(&format!("rows into sink {}", id), &rows_of(&gi), &rows_of(&m.logs.remove(&id).unwrap_or_default()))?;
                let f = fm.logs.remove(&id).unwrap_or_default().len();
                same(&format!("flushes of sink {}", id), &gi.iter().filter(|x| matches!(x, Got::Flush(_))).count(), &f)?;
                if f > 0 && !matches!(gi.last(), Some(Got::Flush(_))) { return Err(format!("sink {} got a row after its last flush", id)); }
            }
            Ok(())
        });
    }
    // a split into many chains in some order, all of which go on into one
    for _ in 0..c.n(200) {
        let k = c.rng.range(2, 12);
        let mut to: Vec<usize> = (1..=k).collect();
        for i in (1..k).rev() { let j = c.rng.below(i + 1); to.swap(i, j); }
        let more = c.rng.chance(1, 3);
        let mut g: G = vec![vec![N::Split(to)]];
        for i in 1..=k { g.push(vec![N::Sink(i, if more { Act::Dup(i % 3) } else { Act::Tag }, None), N::Merge(k + 1)]); }
        g.push(vec![N::Join(k), N::Sink(k + 1, Act::Pass, None)]);
        let rows: Vec<R> = (0..3u64).map(|t| (t, vec![V::Long(t as i64)])).collect();
        c.case("flow", format!("chains {:?}", g), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            run_driver(vec![MemSource::new(header(&["a"], FieldType::Long), rows.clone(), false)], build(&g, &log), TIMESTAMP_RANGE_ALL)?;
            let mut m = Model { logs: Default::default(), seen: Default::default() };
            for r in &rows { go(&g, &mut m, 0, 0, r); }
            fl(&g, &mut m, 0, 0);
            for id in 1..=k + 1 {
                let gi: Vec<Got> = log.borrow().iter().filter(|e| matches!(e, Got::Row(i, _) | Got::Flush(i) if *i == id)).cloned().collect();
                same(&format!("sink {}", id), &gi, &m.logs.remove(&id).unwrap_or_default())?;
            }
            Ok(())
        });
    }
    // sinks that give many rows, one after the other
    for d in 0..5usize { for e in 0..5usize { for f in 0..4usize {
        let g: G = vec![vec![N::Sink(1, Act::Dup(d), None), N::Sink(2, Act::Dup(e), None), N::Merge(1), N::Sink(3, Act::Dup(f), None), N::Sink(4, Act::Pass, None)], vec![N::Join(1), N::Sink(5, Act::Dup(2), None), N::Sink(6, Act::Pass, None)]];
        let rows: Vec<Vec<R>> = vec![vec![(1, vec![V::Long(0)]), (2, vec![V::Long(1)])]];
        c.case("flow", format!("dup {} {} {}", d, e, f), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            run_driver(vec![MemSource::new(header(&["a"], FieldType::Long), rows[0].clone(), false)], build(&g, &log), TIMESTAMP_RANGE_ALL)?;
            let mut m = Model { logs: Default::default(), seen: Default::default() };
            for r in &rows[0] { go(&g, &mut m, 0, 0, r); }
            fl(&g, &mut m, 0, 0);
            for id in 1..=6 {
                let gi: Vec<Got> = log.borrow().iter().filter(|e| matches!(e, Got::Row(i, _) | Got::Flush(i) if *i == id)).cloned().collect();
                same(&format!("sink {}", id), &gi, &m.logs.remove(&id).unwrap_or_default())?;
            }
            Ok(())
        });
    } } }
}
// ---- headers: what each sink's header is, by a direct reading of the documentation
fn head(g: &G, c: usize, h: Vec<String>, pend: &mut Vec<(usize, Option<Vec<String>>)>, out: &mut std::collections::BTreeMap<usize, Vec<String>>) -> Result<(), ()> {
    let mut h = h;
    for n in &g[c] {
        match n {
            N::Sink(id, _, col) => { out.insert(*id, h.clone()); if let Some(x) = col { if x.starts_with('=') { if let Some(n) = h.first_mut() { *n = x.clone(); } } else { h.push(x.clone()); } } }
            N::Join(_) => {}
            N::Split(v) => for t in v { head(g, *t, h.clone(), pend, out)?; },
            N::Merge(t) => join(g, *t, h.clone(), pend, out)?,
        }
    }
    Ok(())
}
fn join(g: &G, t: usize, h: Vec<String>, pend: &mut Vec<(usize, Option<Vec<String>>)>, out: &mut std::collections::BTreeMap<usize, Vec<String>>) -> Result<(), ()> {
    match &pend[t].1 { Some(x) if *x != h => return Err(()), _ => pend[t].1 = Some(h) }
    pend[t].0 -= 1;
    if pend[t].0 == 0 { let h = pend[t].1.clone().unwrap(); head(g, t, h, pend, out)?; }
    Ok(())
}
pub fn header_flow(c: &mut Ctx) {
    header_near(c);
    for q in 0..c.n(6000) {
        let (s, mut g) = gen_graph(c, true);
        let few = q % 3 != 0;
        if few { for ch in g.iter_mut() { for n in ch.iter_mut() { if let N::Sink(_, _, col) = n { if !c.rng.chance(1, 4) { *col = None; } } } } }
        let odd = c.rng.chance(1, 6);
        let bad_type = c.rng.chance(1, 8);
        // headers without any column
        let bare = if c.rng.chance(1, 4) { c.rng.range(1, 3) } else { 0 };
        let bad_type = bad_type && bare == 0;
        let sources: Vec<Vec<String>> = (0..s).map(|k| { let mut v = vec!["a".to_string(), "b".to_string()]; if odd && k == s - 1 { v.swap(0, 1); } if bare == 1 && k == s - 1 || bare == 2 && k == 0 || bare == 3 { v.clear(); } v }).collect();
        c.case("header", format!("chains={:?} headers={:?} last type differs={}", g, sources, bad_type), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let headers: Vec<Header> = (0..s).map(|k| Header::new(sources[k].clone(), vec![FieldType::Long, if bad_type && k == s - 1 { FieldType::String } else { FieldType::Long }][..sources[k].len()].to_vec())).collect();
            let srcs: Vec<Box<dyn Source>> = headers.iter().map(|h| MemSource::new(h.clone(), vec![], false)).collect();
            let got = Driver::new(srcs, HeaderGraph::new(build(&g, &log)), TIMESTAMP_RANGE_ALL, headers.clone());
            let mut pend: Vec<(usize, Option<Vec<String>>)> = g.iter().map(|ch| if let Some(N::Join(m)) = ch.first() { (*m, None) } else { (0, None) }).collect();
            let mut out = Default::default();
            let mut want = Ok(());
            // the type of column b is part of the header: written into its name for the comparison
            for k in 0..s { let mut h = sources[k].clone(); if bad_type && k == s - 1 { h[1].push_str("/S"); } want = want.and_then(|_| head(&g, k, h, &mut pend, &mut out)); }
            if got.is_ok() != want.is_ok() { return Err(format!("accepted={} expected {}", got.is_ok(), want.is_ok())); }
            if want.is_err() { return Ok(()); }
            let mut seen: std::collections::BTreeMap<usize, Vec<String>> = Default::default();
            for e in log.borrow().iter() {
                if let Got::Header(id, n, t) = e {
                    same(&format!("types of sink {}", id), &t.len(), &n.len())?;
                    let mut n = n.clone();
                    if bad_type && t[1] == FieldType::String { n[1].push_str("/S"); }
                    if seen.insert(*id, n).is_some() { return Err(format!("sink {} was given a header twice", id)); }
                }
            }
            same("headers of the sinks", &seen, &out)
        });
    }
}
/// headers that are nearly the same do not merge: the last of many columns, its type, the case and the spaces of its name, one column more or less
pub fn header_near(c: &mut Ctx) {
    for n in [0usize, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 700].iter() {
        let names: Vec<String> = (0..*n).map(|i| format!("c{}", i)).collect();
        let types: Vec<FieldType> = (0..*n).map(|i| if i % 3 == 0 { FieldType::Int } else { FieldType::String }).collect();
        let mut others: Vec<(Vec<String>, Vec<FieldType>, bool)> = vec![(names.clone(), types.clone(), true)];
        others.push(([&names[..], &["x".to_string()]].concat(), [&types[..], &[FieldType::Int]].concat(), false));
        for k in vec![0usize, n / 2, n.saturating_sub(1)] { if k < *n {
            for t in &["C", " c", "c ", "", "c\0", "_c", "\tc"] { let mut m = names.clone(); m[k] = if t.is_empty() { String::new() } else if t.starts_with('C') { m[k].to_uppercase() } else { t.replace("c", &m[k]) }; others.push((m, types.clone(), false)); }
            for t in &[FieldType::Long, FieldType::Double, FieldType::Char] { let mut m = types.clone(); m[k] = *t; others.push((names.clone(), m, false)); }
            let (mut m, mut t) = (names.clone(), types.clone()); m.remove(k); t.remove(k); others.push((m, t, false));
        } }
        if *n > 1 { let mut m = names.clone(); m.swap(0, n - 1); others.push((m, types.clone(), false)); }
        for (on, ot, want) in others {
            for swap in &[false, true] { for more in 0..3usize {
                let mut text = format!("{} columns, the other: {:?} {:?}, swapped={} others={}", n, on, ot, swap, more); cut(&mut text, 400);
                c.case("header", text, || {
                    let log: Log = Rc::new(RefCell::new(Vec::new()));
                    let (x, y) = (Header::new(names.clone(), types.clone()), Header::new(on.clone(), ot.clone()));
                    let mut headers = if *swap { vec![y.clone(), x] } else { vec![x, y.clone()] };
                    for _ in 0..more { headers.push(if *swap { headers[1].clone() } else { headers[0].clone() }); }
                    let k = headers.len();
                    let srcs: Vec<Box<dyn Source>> = headers.iter().map(|h| MemSource::new(h.clone(), vec![], false)).collect();
                    let got = Driver::new(srcs, HeaderGraph::new(merged_chains(k, &log)), TIMESTAMP_RANGE_ALL, headers);
                    if got.is_ok() != want { return Err(format!("accepted={} expected {}", got.is_ok(), want)); }
                    Ok(())
                });
            } }
        }
    }
}
/// a source that fails once after some of its rows and would go on after that
struct OnceFailing { header: Header, rows: Vec<R>, pos: usize, at: usize, kind: usize, log: Log, mark: Rc<RefCell<Option<usize>>> }
impl Source for OnceFailing {
    fn header(&self) -> &Header { &self.header }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.pos == self.at && self.mark.borrow().is_none() { *self.mark.borrow_mut() = Some(rows_in(&self.log)); return Err(failure(self.kind, "source failed once")); }
        self.pos += 1;
        Ok(self.rows.get(self.pos - 1).map(row_of))
    }
}
fn rows_in(log: &Log) -> usize { log.borrow().iter().filter(|x| matches!(x, Got::Row(..))).count() }
pub fn error_stop(c: &mut Ctx) {
    // a source that fails once
    for _ in 0..c.n(4000) {
        let rows = gen_sources(c, true);
        if rows.len() > 10 { continue; }
        let bad = c.rng.below(rows.len());
        let at = c.rng.below(rows[bad].len() + 1);
        let kind = c.rng.below(8);
        let merged = c.rng.chance(1, 2);
        c.case("source-error", format!("source {} fails once after {} rows kind={} merged={} sources={:?}", bad, at, kind, merged, rows), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let mark = Rc::new(RefCell::new(None));
            let srcs: Vec<Box<dyn Source>> = rows.iter().enumerate().map(|(k, r)| {
                let h = header(&["s", "i"], FieldType::Long);
                if k == bad { Box::new(OnceFailing { header: h, rows: r.clone(), pos: 0, at, kind, log: log.clone(), mark: mark.clone() }) as Box<dyn Source> } else { MemSource::new(h, r.clone(), false) as Box<dyn Source> }
            }).collect();
            let n = rows.len();
            let r = run_driver(srcs, if merged { merged_chains(n, &log) } else { own_chains(n, 0, &log) }, TIMESTAMP_RANGE_ALL);
            if r.is_ok() { return Err("the failure of the source was swallowed".to_string()); }
            let mark = *mark.borrow();
            same("rows delivered in all and before the failure", &Some(rows_in(&log)), &mark)
        });
    }
    // a source that fails: drive fails, unless the range had ended before
    for _ in 0..c.n(6000) {
        let rows = gen_sources(c, true);
        let bad = c.rng.below(rows.len());
        let mut pool: Vec<u64> = rows.iter().flatten().map(|r| r.0).collect();
        pool.push(u64::MAX);
        let e = if c.rng.chance(2, 3) { None } else { Some(*c.rng.pick(&pool)) };
        let b = if c.rng.chance(2, 3) { None } else { Some(*c.rng.pick(&pool)) };
        let merged = c.rng.chance(1, 2);
        c.case("source-error", format!("failing source={} begin={:?} end={:?} merged={} sources={:?}", bad, b, e, merged, rows), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let srcs: Vec<Box<dyn Source>> = rows.iter().enumerate().map(|(k, r)| MemSource::new(header(&["s", "i"], FieldType::Long), r.clone(), k == bad)).collect();
            let n = rows.len();
            let r = run_driver(srcs, if merged { merged_chains(n, &log) } else { own_chains(n, 0, &log) }, TimestampRange { begin: b, end: e });
            let reached = !rows[bad].iter().any(|r| e.map_or(false, |e| r.0 >= e));
            if reached && r.is_ok() { return Err("the failure of the source was swallowed".to_string()); }
            if !reached { r.map_err(|e| format!("failed although the failing part was not needed: {}", e))?; }
            Ok(())
        });
    }
    // a sink that fails: drive fails
    for _ in 0..c.n(6000) {
        let (s, mut g) = gen_graph(c, false);
        let mut rows: Vec<Vec<R>> = vec![vec![]; s];
        for t in 0..c.rng.range(1, 10) { let k = c.rng.below(s); rows[k].push((t as u64, vec![V::Long(k as i64), V::Long(0)])); }
        let ids: Vec<(usize, usize)> = g.iter().enumerate().flat_map(|(a, ch)| ch.iter().enumerate().filter(|(_, n)| matches!(n, N::Sink(..))).map(move |(b, _)| (a, b)).collect::<Vec<_>>()).collect();
        if ids.is_empty() { continue; }
        let (a, b) = *c.rng.pick(&ids);
        let nth = c.rng.below(4);
        // how many rows does that sink get, when it passes them on
        let id = if let N::Sink(id, act, _) = &mut g[a][b] { *act = Act::Pass; *id } else { 0 };
        let mut m = Model { logs: Default::default(), seen: Default::default() };
        let mut all: Vec<(u64, usize, R)> = Vec::new();
        for k in 0..s { for r in &rows[k] { all.push((r.0, k, r.clone())); } }
        all.sort_by_key(|x| x.0);
        for (_, k, r) in &all { go(&g, &mut m, *k, 0, r); }
        let gets = m.logs.get(&id).map_or(0, |v| v.len());
        if let N::Sink(_, act, _) = &mut g[a][b] { *act = Act::FailAt(nth); }
        c.case("sink-error", format!("chains={:?} rows={:?}", g, rows), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let r = run_driver(mem(&rows), build(&g, &log), TIMESTAMP_RANGE_ALL);
            if gets > nth && r.is_ok() { return Err("the failure of the sink was swallowed".to_string()); }
            if gets > nth && !matches!(log.borrow().last(), Some(Got::Row(i, _)) if *i == id) { return Err(format!("went on after the failure: {:?}", log.borrow().last())); }
            if gets <= nth { r?; }
            Ok(())
        });
    }
    // a sink that fails when its input ends: drive fails
    for _ in 0..c.n(3000) {
        let (s, g) = gen_graph(c, false);
        let mut rows: Vec<Vec<R>> = vec![vec![]; s];
        for t in 0..c.rng.below(6) { let k = c.rng.below(s); rows[k].push((t as u64, vec![V::Long(k as i64), V::Long(0)])); }
        let mut m = Model { logs: Default::default(), seen: Default::default() };
        for k in 0..s { fl(&g, &mut m, k, 0); }
        let ids: Vec<usize> = m.logs.keys().copied().collect();
        if ids.is_empty() { continue; }
        let id = *c.rng.pick(&ids);
        let nth = c.rng.below(m.logs[&id].len() + 1);
        c.case("flush-error", format!("sink {} fails at flush {} of {} chains={:?} rows={:?}", id, nth, m.logs[&id].len(), g, rows), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let chains = build_with(&g, &log, &|i| if i == id { Some(nth) } else { None });
            let r = run_driver(mem(&rows), chains, TIMESTAMP_RANGE_ALL);
            same("result is Ok", &r.is_ok(), &(nth >= m.logs[&id].len()))?;
            if r.is_err() && !matches!(log.borrow().last(), Some(Got::Flush(i)) if *i == id) { return Err(format!("went on after the failure: {:?}", log.borrow().last())); }
            Ok(())
        });
    }
    for n in 1..5usize { for m in 0..5usize {
        c.case("too-few-chains", format!("{} sources {} chains", n, m), || {
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let rows: Vec<Vec<R>> = vec![vec![(1, vec![V::Long(0), V::Long(0)])]; n];
            let r = run_driver(mem(&rows), own_chains(m, 0, &log), TIMESTAMP_RANGE_ALL);
            same("accepted", &r.is_ok(), &(n <= m))
        });
    } }
}
