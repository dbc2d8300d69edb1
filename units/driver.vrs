//@include inc/base.inc
//@include inc/io_min.inc
//@include inc/types.inc
//@include inc/iter.inc
//@include inc/graph.inc

// ---- sources: rows() are the rows still to come, ends(): they end without a failure
trait Source {
    spec fn rows(&self) -> Seq<Row>;
    spec fn ends(&self) -> bool;
    //@fn src/chopper/chopper.rs | trait Source | next_row
        //@ret r
        //@nobody
        //@spec
        ensures
            final(self).ends() == old(self).ends(),
            r matches Ok(None) ==> old(self).rows().len() == 0 && old(self).ends() && final(self).rows().len() == 0,
            r matches Ok(Some(x)) ==> old(self).rows().len() > 0 && x == old(self).rows()[0] && final(self).rows() == old(self).rows().skip(1),
    //@end
}
//@item src/chopper/types.rs | struct | TimestampRange
//@derive src/chopper/types.rs | struct | TimestampRange | Copy,Clone
impl Copy for TimestampRange {}
impl Clone for TimestampRange {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- the rows of [begin, end): from the first row at or after begin up to the first row at or after end
spec fn stops(ts: u64, t: TimestampRange) -> bool { t.end is Some && ts >= t.end->Some_0 }
spec fn skips(ts: u64, t: TimestampRange) -> bool { t.begin is Some && ts < t.begin->Some_0 }
spec fn window(rows: Seq<Row>, t: TimestampRange) -> Seq<Row> decreases rows.len() {
    if rows.len() == 0 || stops(rows[0].timestamp, t) { seq![] }
    else if skips(rows[0].timestamp, t) { window(rows.skip(1), t) }
    else { seq![rows[0]] + window(rows.skip(1), t) }
}
// the window is not cut short by a failure of the source
spec fn clean(rows: Seq<Row>, ends: bool, t: TimestampRange) -> bool decreases rows.len() {
    if rows.len() == 0 { ends } else { stops(rows[0].timestamp, t) || clean(rows.skip(1), ends, t) }
}
//@item src/driver/source_row_buffer.rs | struct | SourceRowBuffer
//@item src/driver/source_row_buffer.rs | enum | Action
//@fn src/driver/source_row_buffer.rs | - | filter_data_range
    //@ret r
    //@spec
    ensures
        r is Stop <==> stops(timestamp, *timestamp_range),
        r is Skip <==> !stops(timestamp, *timestamp_range) && skips(timestamp, *timestamp_range),
//@end
//@fn src/driver/source_row_buffer.rs | - | match_next_row
    //@ret r
    //@spec
    ensures
        final(source).ends() == old(source).ends(),
        r matches Ok(None) ==> window(old(source).rows(), *timestamp_range).len() == 0 && clean(old(source).rows(), old(source).ends(), *timestamp_range),
        r matches Ok(Some(x)) ==> window(old(source).rows(), *timestamp_range) =~= seq![x] + window(final(source).rows(), *timestamp_range)
            && clean(old(source).rows(), old(source).ends(), *timestamp_range) == clean(final(source).rows(), final(source).ends(), *timestamp_range),
    //@loop 0
        invariant_except_break
            next_row is None,
            window(source.rows(), *timestamp_range) == window(old(source).rows(), *timestamp_range),
            clean(source.rows(), source.ends(), *timestamp_range) == clean(old(source).rows(), old(source).ends(), *timestamp_range),
        invariant source.ends() == old(source).ends(),
        ensures
            next_row is None ==> window(old(source).rows(), *timestamp_range).len() == 0 && clean(old(source).rows(), old(source).ends(), *timestamp_range),
            next_row matches Some(x) ==> window(old(source).rows(), *timestamp_range) =~= seq![x] + window(source.rows(), *timestamp_range)
                && clean(old(source).rows(), old(source).ends(), *timestamp_range) == clean(source.rows(), source.ends(), *timestamp_range),
        decreases source.rows().len(),
//@end
impl SourceRowBuffer {
    spec fn inv(&self) -> bool { self.row matches Some(r) ==> self.timestamp == r.timestamp }
    // the rows this source still owes: the current one and the window of the rest
    spec fn owed(&self, t: TimestampRange) -> Seq<Row> { seq![self.row->Some_0] + window(self.source.rows(), t) }
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | new
        //@ret r
        //@spec
        ensures
            r matches Ok(b) ==> {
                &&& b.chain_id == chain_id && b.inv()
                &&& b.row is None ==> window(source.rows(), *timestamp_range).len() == 0 && clean(source.rows(), source.ends(), *timestamp_range)
                &&& b.row is Some ==> b.owed(*timestamp_range) =~= window(source.rows(), *timestamp_range)
                    && clean(source.rows(), source.ends(), *timestamp_range) == clean(b.source.rows(), b.source.ends(), *timestamp_range)
            },
    //@end
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | timestamp
        //@ret r
        //@spec
        ensures r == self.timestamp,
    //@end
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | row
        //@ret r
        //@spec
        ensures *r == self.row,
    //@end
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | chain_id
        //@ret r
        //@spec
        ensures r == old(self).chain_id, *final(self) == *old(self),
    //@end
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | update_record
        //@spec
        ensures final(self).inv(), final(self).row == Some(next_row), final(self).source == old(self).source, final(self).chain_id == old(self).chain_id,
    //@end
    //@fn src/driver/source_row_buffer.rs | SourceRowBuffer | has_next
        //@ret r
        //@spec
        ensures
            final(self).chain_id == old(self).chain_id,
            r matches Ok(false) ==> window(old(self).source.rows(), *timestamp_range).len() == 0 && clean(old(self).source.rows(), old(self).source.ends(), *timestamp_range),
            r matches Ok(true) ==> final(self).inv() && final(self).row is Some && final(self).owed(*timestamp_range) =~= window(old(self).source.rows(), *timestamp_range)
                && clean(old(self).source.rows(), old(self).source.ends(), *timestamp_range) == clean(final(self).source.rows(), final(self).source.ends(), *timestamp_range),
    //@end
}

// ---- what it means to send a row into node n of chain c, and to flush from there
// rk ranks the chains: a chain only leads to chains of smaller rank (the graph has no cycles)
spec fn ranked(sh: Shape, rk: Seq<nat>) -> bool {
    &&& rk.len() == sh.len()
    &&& forall|c: int, n: int| 0 <= c < sh.len() && 0 <= n < sh[c].len() ==> match #[trigger] sh[c][n] {
        Sh::Sink(_) => true,
        Sh::Merge(t) => 0 <= t < sh.len() && rk[t] < rk[c],
        Sh::Split(v) => forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i] < sh.len() && rk[v[i]] < rk[c],
    }
}
spec fn acyclic(sh: Shape) -> bool { exists|rk: Seq<nat>| ranked(sh, rk) }
spec fn ranks(sh: Shape) -> Seq<nat> { choose|rk: Seq<nat>| ranked(sh, rk) }
spec fn put(l: Logs, c: int, n: int, e: Ev) -> Logs { l.update(c, l[c].update(n, l[c][n].push(e))) }
spec fn room(sh: Shape, c: int, n: int) -> int { if 0 <= c < sh.len() { sh[c].len() - n } else { 0 } }

spec fn go(sh: Shape, l: Logs, c: int, n: int, row: Row) -> Logs
    decreases ranks(sh)[c], room(sh, c, n), 0nat
{
    if !(0 <= c < sh.len() && 0 <= n < sh[c].len()) { l } else {
        match sh[c][n] {
            Sh::Sink(id) => go_all(sh, put(l, c, n, Ev::Row(row)), c, n + 1, emits(id, l[c][n], row)),
            Sh::Merge(t) => if ranks(sh)[t] < ranks(sh)[c] { go(sh, go(sh, l, t, 0, row), c, n + 1, row) } else { l },
            Sh::Split(v) => go(sh, go_split(sh, l, c, v, row), c, n + 1, row),
        }
    }
}
// every row a sink emits goes on, in order
spec fn go_all(sh: Shape, l: Logs, c: int, n: int, rows: Seq<Row>) -> Logs
    decreases ranks(sh)[c], room(sh, c, n), rows.len()
{
    if rows.len() == 0 { l } else { go_all(sh, go(sh, l, c, n, rows[0]), c, n, rows.skip(1)) }
}
// a row goes to every chain of a split
spec fn go_split(sh: Shape, l: Logs, c: int, v: Seq<int>, row: Row) -> Logs
    decreases ranks(sh)[c], 0int, v.len()
{
    if v.len() == 0 { l } else if ranks(sh)[v[0]] < ranks(sh)[c] { go_split(sh, go(sh, l, v[0], 0, row), c, v.skip(1), row) } else { l }
}
spec fn fl(sh: Shape, l: Logs, c: int, n: int) -> Logs
    decreases ranks(sh)[c], room(sh, c, n), 0nat
{
    if !(0 <= c < sh.len() && 0 <= n < sh[c].len()) { l } else {
        match sh[c][n] {
            Sh::Sink(id) => fl(sh, put(l, c, n, Ev::Flush), c, n + 1),
            Sh::Merge(t) => if ranks(sh)[t] < ranks(sh)[c] { fl(sh, fl(sh, l, t, 0), c, n + 1) } else { l },
            Sh::Split(v) => fl(sh, fl_split(sh, l, c, v), c, n + 1),
        }
    }
}
spec fn fl_split(sh: Shape, l: Logs, c: int, v: Seq<int>) -> Logs
    decreases ranks(sh)[c], 0int, v.len()
{
    if v.len() == 0 { l } else if ranks(sh)[v[0]] < ranks(sh)[c] { fl_split(sh, fl(sh, l, v[0], 0), c, v.skip(1)) } else { l }
}

proof fn lemma_all(sh: Shape, l: Logs, c: int, n: int, rows: Seq<Row>)
    ensures rows.len() == 0 ==> go_all(sh, l, c, n, rows) == l, rows.len() == 1 ==> go_all(sh, l, c, n, rows) == go(sh, l, c, n, rows[0]),
{ if rows.len() == 1 { let l1 = go(sh, l, c, n, rows[0]); assert(go_all(sh, l1, c, n, rows.skip(1)) == l1); } }
//@item src/driver/driver.rs | struct | Driver
spec fn same_graph(a: Driver, b: Driver) -> bool {
    a.sources == b.sources && a.timestamp_range == b.timestamp_range && shape(a.data_graph) == shape(b.data_graph)
}
impl Driver {
    //@fn src/driver/driver.rs | Driver | process_row
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires acyclic(shape(old(self).data_graph)), chain_id < shape(old(self).data_graph).len(), node_id <= shape(old(self).data_graph)[chain_id as int].len(),
        ensures
            same_graph(*old(self), *final(self)),
            r is Ok ==> logs(final(self).data_graph) == go(shape(old(self).data_graph), logs(old(self).data_graph), chain_id as int, node_id as int, row),
        decreases ranks(shape(old(self).data_graph))[chain_id as int], room(shape(old(self).data_graph), chain_id as int, node_id as int),
        //@start
        broadcast use lemma_node_set;
        let ghost sh = shape(self.data_graph);
        let ghost goal = go(sh, logs(self.data_graph), chain_id as int, node_id as int, row);
        let ghost c = chain_id as int;
        proof { assert(ranked(sh, ranks(sh))); }
        //@loop 0
            invariant
                same_graph(*old(self), *self), rows@.len() == 1,
                go(sh, logs(self.data_graph), c, node_id as int, rows@[0]) == goal,
        //@loopstart 0
            let ghost l0 = logs(self.data_graph);
            let ghost r0 = rows@[0];
            let ghost k = node_id as int;
            let ghost vi = match sh[c][k] { Sh::Split(v) => v, _ => seq![] };
        //@after «sink.write_row(&mut rows)?;»
            proof { lemma_all(sh, logs(self.data_graph), c, k + 1, rows@); assert(goal == go_all(sh, logs(self.data_graph), c, k + 1, rows@)); }
        //@loop 1
            invariant
                same_graph(*old(self), *self), rows@.len() >= 1,
                go_all(sh, logs(self.data_graph), c, k + 1, rows@) == goal,
            decreases rows@.len(),
        //@loopend 1
            proof { lemma_all(sh, logs(self.data_graph), c, k + 1, rows@); }
        //@afterloop 1
            proof { lemma_all(sh, logs(self.data_graph), c, k + 1, rows@); }
        //@afterloop 2
            proof { assert(go_split(sh, logs(self.data_graph), c, vi.skip(vi.len() as int), r0) == logs(self.data_graph)); }
        //@iter 2 it
        //@beforeloop 2
            proof { assert(vi.skip(0) =~= vi); assert(goal == go(sh, go_split(sh, l0, c, vi, r0), c, k + 1, r0)); }
        //@loop 2
            invariant same_graph(*old(self), *self), rows@.len() == 1,
                rows@[0] == r0, it.seq().len() == vi.len(), forall|q: int| 0 <= q < vi.len() ==> #[trigger] it.seq()[q] as int == vi[q],
                goal == go(sh, go_split(sh, logs(self.data_graph), c, vi.skip(it.index@), r0), c, k + 1, r0),
        //@loopstart 2
            proof { assert(vi.skip(it.index@).skip(1) =~= vi.skip(it.index@ + 1)); }
    //@end
    //@fn src/driver/driver.rs | Driver | flush
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires acyclic(shape(old(self).data_graph)), chain_id < shape(old(self).data_graph).len(), node_id <= shape(old(self).data_graph)[chain_id as int].len(),
        ensures
            same_graph(*old(self), *final(self)),
            r is Ok ==> logs(final(self).data_graph) == fl(shape(old(self).data_graph), logs(old(self).data_graph), chain_id as int, node_id as int),
        decreases ranks(shape(old(self).data_graph))[chain_id as int], room(shape(old(self).data_graph), chain_id as int, node_id as int),
        //@start
        broadcast use lemma_node_set;
        let ghost sh = shape(self.data_graph);
        let ghost goal = fl(sh, logs(self.data_graph), chain_id as int, node_id as int);
        let ghost c = chain_id as int;
        proof { assert(ranked(sh, ranks(sh))); }
        //@loop 0
            invariant
                same_graph(*old(self), *self),
                fl(sh, logs(self.data_graph), c, node_id as int) == goal,
        //@loopstart 0
            let ghost l0 = logs(self.data_graph);
            let ghost k = node_id as int;
            let ghost vi = match sh[c][k] { Sh::Split(v) => v, _ => seq![] };
        //@afterloop 1
            proof { assert(fl_split(sh, logs(self.data_graph), c, vi.skip(vi.len() as int)) == logs(self.data_graph)); }
        //@iter 1 it
        //@beforeloop 1
            proof { assert(vi.skip(0) =~= vi); assert(goal == fl(sh, fl_split(sh, l0, c, vi), c, k + 1)); }
        //@loop 1
            invariant same_graph(*old(self), *self),
                it.seq().len() == vi.len(), forall|q: int| 0 <= q < vi.len() ==> #[trigger] it.seq()[q] as int == vi[q],
                goal == fl(sh, fl_split(sh, logs(self.data_graph), c, vi.skip(it.index@)), c, k + 1),
        //@loopstart 1
            proof { assert(vi.skip(it.index@).skip(1) =~= vi.skip(it.index@ + 1)); }
    //@end
    //@fn src/driver/driver.rs | Driver | get_next_buffer_index
        //@ret r
        //@sub «.iter()» => «.iter_()» std iterator by its contract
        //@closure 0 «a: &(usize, &SourceRowBuffer), b: &(usize, &SourceRowBuffer)» «-> (o: Ordering) ensures o is Greater <==> a.1.timestamp > b.1.timestamp»
        //@spec
        requires row_buffers@.len() > 0,
        ensures r < row_buffers@.len(), forall|j: int| 0 <= j < row_buffers@.len() ==> row_buffers@[r as int].timestamp <= (#[trigger] row_buffers@[j]).timestamp,
    //@end
    //@fn src/driver/driver.rs | Driver | get_row_buffers
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires acyclic(shape(old(self).data_graph)), old(self).sources@.len() <= shape(old(self).data_graph).len(),
        ensures
            final(self).timestamp_range == old(self).timestamp_range, shape(final(self).data_graph) == shape(old(self).data_graph),
            r matches Ok(bufs) ==> primed_ex(*old(self), logs(final(self).data_graph), bufs@),
        //@start
        let ghost sh = shape(self.data_graph);
        let ghost l0 = logs(self.data_graph);
        let ghost srcs = self.sources@;
        let ghost t = self.timestamp_range;
        let ghost rem = owed0(srcs, t);
        let ghost mut ev: Seq<DE> = seq![];
        //@loop 0
            invariant
                self.timestamp_range == t, shape(self.data_graph) == sh, self.sources@ == srcs.take(self.sources@.len() as int), self.sources@.len() <= srcs.len(),
                valid(rem, ev), rem_after(rem, ev) == rem, logs(self.data_graph) == run(sh, l0, ev),
                bufs_ok(row_buffers@, rem, ev, cleans(srcs, t), t, self.sources@.len() as int),
            decreases self.sources@.len(),
        //@after «SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?;»
            let ghost b0 = row_buffers@;
            let ghost ev0 = ev;
            let ghost l1 = logs(self.data_graph);
            proof { assert(source == srcs[chain_id as int]); assert(!ev.contains(DE::Flush(chain_id as int))); }
        //@after «row_buffers.push(row_buffer);»
            proof { lemma_buf_push(b0, row_buffer, rem, ev, cleans(srcs, t), t, chain_id as int); }
        //@after «self.flush(chain_id, 0)?;»
            proof {
                ev = ev0.push(DE::Flush(chain_id as int));
                assert(ev.drop_last() =~= ev0);
                lemma_buf_flush(b0, rem, ev0, cleans(srcs, t), t, chain_id as int, chain_id as int);
            }
        //@before «Ok(row_buffers)»
            proof { assert(primed(*old(self), logs(self.data_graph), row_buffers@, ev)); assert(primed_ex(*old(self), logs(self.data_graph), row_buffers@)); }
    //@end
    //@fn src/driver/driver.rs | Driver | drive
        //@ret r
        //@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
        //@spec
        requires acyclic(shape(old(self).data_graph)), old(self).sources@.len() <= shape(old(self).data_graph).len(),
        ensures
            r is Ok ==> exists|ev: Seq<DE>| driven(*old(self), *final(self), ev),
        //@start
        let ghost sh = shape(self.data_graph);
        let ghost l0 = logs(self.data_graph);
        let ghost srcs = self.sources@;
        let ghost t = self.timestamp_range;
        let ghost rem = owed0(srcs, t);
        let ghost cl = cleans(srcs, t);
        //@beforeloop 0
        let ghost mut ev: Seq<DE> = choose|ev: Seq<DE>| primed(*old(self), logs(self.data_graph), row_buffers@, ev);
        //@loop 0
            invariant
                self.timestamp_range == t, shape(self.data_graph) == sh, buffer_len == row_buffers@.len(),
                valid(rem, ev), rem_after(rem, ev).len() == rem.len(), logs(self.data_graph) == run(sh, l0, ev),
                bufs_ok(row_buffers@, rem_after(rem, ev), ev, cl, t, 0),
            decreases total(rem_after(rem, ev), rem.len()),
        //@loopstart 0
            let ghost b0 = row_buffers@;
            let ghost ev0 = ev;
            let ghost rem0 = rem_after(rem, ev);
            let ghost mut ev1: Seq<DE> = ev;
            let ghost mut rem1: Seq<Seq<Row>> = rem0;
        //@after «self.process_row(chain_id, 0, row)?;»
            proof {
                let k = chain_id as int;
                ev1 = ev0.push(DE::Row(k, row));
                rem1 = rem0.update(k, rem0[k].skip(1));
                assert(ev1.drop_last() =~= ev0);
                assert(rem_after(rem, ev1) == rem1);
                assert(b0[buffer_index as int].owed(t) == rem0[k]);
                lemma_min(b0, rem0, ev0, cl, t, buffer_index as int);
                assert(valid(rem, ev1));
                lemma_total(rem0, k, rem.len());
                assert(rem1[k] =~= window(b0[buffer_index as int].source.rows(), t));
                lemma_push_flush(ev0, DE::Row(k, row));
            }
        //@loop 1
            invariant_except_break
                row_buffers@ == b0, shape(self.data_graph) == sh, self.timestamp_range == t, logs(self.data_graph) == run(sh, l0, ev1),
            ensures
                self.timestamp_range == t, shape(self.data_graph) == sh,
                exists|e: Seq<DE>| stepped(rem, e, rem1, row_buffers@, cl, t, sh, l0, logs(self.data_graph)),
            decreases 0int,
        //@loopstart 1
            let ghost mut e2: Seq<DE> = ev1;
        //@before «self.flush(chain_id, 0)?;»
            let ghost b1 = row_buffers@;
        //@after «row_buffers.remove(buffer_index);»
            proof {
                e2 = ev1.push(DE::Flush(chain_id as int));
                assert(e2.drop_last() =~= ev1);
                lemma_buf_remove(b0, b1, buffer_index as int, rem0, ev0, row, cl, t);
            }
        //@before «break;»
            proof {
                if row_buffers@.len() == b0.len() { lemma_buf_update(b0, row_buffers@, buffer_index as int, rem0, ev0, row, cl, t); }
                assert(valid(rem, e2));
                assert(rem_after(rem, e2) == rem1);
                assert(logs(self.data_graph) == run(sh, l0, e2));
                assert(bufs_ok(row_buffers@, rem1, e2, cl, t, 0));
                assert(stepped(rem, e2, rem1, row_buffers@, cl, t, sh, l0, logs(self.data_graph)));
            }
        //@before «buffer_len = row_buffers.len();» #2
            proof { ev = choose|e: Seq<DE>| stepped(rem, e, rem1, row_buffers@, cl, t, sh, l0, logs(self.data_graph)); }
        //@before «Ok(())»
        proof {
            let last = rem_after(rem, ev);
            assert forall|k: int| 0 <= k < rem.len() implies (#[trigger] last[k]).len() == 0 && ev.contains(DE::Flush(k)) && cl[k] by { if !ev.contains(DE::Flush(k)) { assert(has_buf(row_buffers@, k)); } }
            assert(driven(*old(self), *self, ev));
        }
    //@end
}
trait ChopperDriver {
    spec fn can_drive(&self) -> bool;
    //@fn src/chopper/chopper.rs | trait ChopperDriver | drive
        //@nobody
        //@spec
        requires old(self).can_drive(),
    //@end
}
impl ChopperDriver for Driver {
    spec fn can_drive(&self) -> bool { acyclic(shape(self.data_graph)) && self.sources@.len() <= shape(self.data_graph).len() }
    //@fn src/driver/driver.rs | ChopperDriver for Driver | drive
        //@ret r
        //@spec
        ensures r is Ok ==> exists|ev: Seq<DE>| driven(*old(self), *final(self), ev),
    //@end
}
// ---- what the driver does, as a sequence of events
enum DE { Row(int, Row), Flush(int) }
spec fn run(sh: Shape, l: Logs, ev: Seq<DE>) -> Logs decreases ev.len() {
    if ev.len() == 0 { l } else {
        let p = run(sh, l, ev.drop_last());
        match ev.last() { DE::Row(k, r) => go(sh, p, k, 0, r), DE::Flush(k) => fl(sh, p, k, 0) }
    }
}
// rem: what each source owes; rem_after: what it still owes after the events
spec fn rem_after(rem: Seq<Seq<Row>>, ev: Seq<DE>) -> Seq<Seq<Row>> decreases ev.len() {
    if ev.len() == 0 { rem } else {
        let p = rem_after(rem, ev.drop_last());
        match ev.last() { DE::Row(k, _) => p.update(k, p[k].skip(1)), DE::Flush(_) => p }
    }
}
// each row event is the first row its source owes, and no source owes an earlier one first;
// a source is flushed once, when it owes nothing
spec fn valid(rem: Seq<Seq<Row>>, ev: Seq<DE>) -> bool decreases ev.len() {
    ev.len() == 0 || {
        let e = ev.drop_last();
        let p = rem_after(rem, e);
        valid(rem, e) && match ev.last() {
            DE::Row(k, r) => 0 <= k < p.len() && p[k].len() > 0 && r == p[k][0]
                && forall|j: int| 0 <= j < p.len() && (#[trigger] p[j]).len() > 0 ==> r.timestamp <= p[j][0].timestamp,
            DE::Flush(k) => 0 <= k < p.len() && p[k].len() == 0 && !e.contains(DE::Flush(k)),
        }
    }
}
spec fn owed0(srcs: Seq<Box<dyn Source>>, t: TimestampRange) -> Seq<Seq<Row>> { Seq::new(srcs.len(), |k: int| window(srcs[k].rows(), t)) }
spec fn cleans(srcs: Seq<Box<dyn Source>>, t: TimestampRange) -> Seq<bool> { Seq::new(srcs.len(), |k: int| clean(srcs[k].rows(), srcs[k].ends(), t)) }
spec fn buf_ok(b: SourceRowBuffer, rem: Seq<Seq<Row>>, ev: Seq<DE>, cl: Seq<bool>, t: TimestampRange) -> bool {
    let k = b.chain_id as int;
    &&& b.row is Some && b.inv() && k < rem.len() && b.owed(t) == rem[k]
    &&& clean(b.source.rows(), b.source.ends(), t) == cl[k]
    &&& !ev.contains(DE::Flush(k))
}
// the buffers are those of the sources from lo on that are not flushed yet
spec fn bufs_ok(bufs: Seq<SourceRowBuffer>, rem: Seq<Seq<Row>>, ev: Seq<DE>, cl: Seq<bool>, t: TimestampRange, lo: int) -> bool {
    &&& forall|i: int| 0 <= i < bufs.len() ==> buf_ok(#[trigger] bufs[i], rem, ev, cl, t) && bufs[i].chain_id >= lo
    &&& forall|i: int, j: int| 0 <= i < j < bufs.len() ==> (#[trigger] bufs[i]).chain_id != (#[trigger] bufs[j]).chain_id
    &&& forall|k: int| lo <= k < rem.len() ==> if #[trigger] ev.contains(DE::Flush(k)) { rem[k].len() == 0 && cl[k] } else { has_buf(bufs, k) }
    &&& forall|k: int| 0 <= k < lo ==> !#[trigger] ev.contains(DE::Flush(k))
}
spec fn has_buf(bufs: Seq<SourceRowBuffer>, k: int) -> bool { exists|i: int| 0 <= i < bufs.len() && (#[trigger] bufs[i]).chain_id == k }
spec fn primed(a: Driver, l: Logs, bufs: Seq<SourceRowBuffer>, ev: Seq<DE>) -> bool {
    let rem = owed0(a.sources@, a.timestamp_range);
    &&& valid(rem, ev) && rem_after(rem, ev) == rem
    &&& l == run(shape(a.data_graph), logs(a.data_graph), ev)
    &&& bufs_ok(bufs, rem, ev, cleans(a.sources@, a.timestamp_range), a.timestamp_range, 0)
}
spec fn primed_ex(a: Driver, l: Logs, bufs: Seq<SourceRowBuffer>) -> bool { exists|ev: Seq<DE>| primed(a, l, bufs, ev) }
// ORDERED MERGE: some valid, complete order of events has been executed on the graph, and no source failed
spec fn driven(a: Driver, b: Driver, ev: Seq<DE>) -> bool {
    let rem = owed0(a.sources@, a.timestamp_range);
    &&& valid(rem, ev)
    &&& forall|k: int| 0 <= k < rem.len() ==> (#[trigger] rem_after(rem, ev)[k]).len() == 0 && ev.contains(DE::Flush(k)) && cleans(a.sources@, a.timestamp_range)[k]
    &&& logs(b.data_graph) == run(shape(a.data_graph), logs(a.data_graph), ev)
}
spec fn stepped(rem: Seq<Seq<Row>>, e: Seq<DE>, rem1: Seq<Seq<Row>>, bufs: Seq<SourceRowBuffer>, cl: Seq<bool>, t: TimestampRange, sh: Shape, l0: Logs, l: Logs) -> bool {
    &&& valid(rem, e) && rem_after(rem, e) == rem1 && l == run(sh, l0, e)
    &&& bufs_ok(bufs, rem1, e, cl, t, 0)
}
spec fn total(rem: Seq<Seq<Row>>, n: nat) -> nat decreases n { if n == 0 { 0 } else { total(rem, (n - 1) as nat) + rem[n - 1].len() } }
proof fn lemma_total(rem: Seq<Seq<Row>>, k: int, n: nat)
    requires n <= rem.len(), 0 <= k < rem.len(), rem[k].len() > 0,
    ensures total(rem.update(k, rem[k].skip(1)), n) == total(rem, n) - if k < n { 1int } else { 0 }
    decreases n
{ if n > 0 { lemma_total(rem, k, (n - 1) as nat); } }
proof fn lemma_push_flush(ev: Seq<DE>, e: DE)
    ensures forall|f: DE| #[trigger] ev.push(e).contains(f) <==> ev.contains(f) || f == e
{
    assert forall|f: DE| #[trigger] ev.push(e).contains(f) <==> ev.contains(f) || f == e by {
        if ev.contains(f) { let i = choose|i: int| 0 <= i < ev.len() && ev[i] == f; assert(ev.push(e)[i] == f); }
        if f == e { assert(ev.push(e)[ev.len() as int] == f); }
    }
}
proof fn lemma_buf_push(b0: Seq<SourceRowBuffer>, b: SourceRowBuffer, rem: Seq<Seq<Row>>, ev: Seq<DE>, cl: Seq<bool>, t: TimestampRange, k: int)
    requires bufs_ok(b0, rem, ev, cl, t, k + 1), 0 <= k < rem.len(), b.chain_id == k, buf_ok(b, rem, ev, cl, t),
    ensures bufs_ok(b0.push(b), rem, ev, cl, t, k)
{
    let n = b0.push(b);
    assert forall|x: int| k <= x < rem.len() implies if #[trigger] ev.contains(DE::Flush(x)) { rem[x].len() == 0 && cl[x] } else { has_buf(n, x) } by {
        if x == k { assert(n[b0.len() as int].chain_id == x); }
        else if !ev.contains(DE::Flush(x)) { let i = choose|i: int| 0 <= i < b0.len() && (#[trigger] b0[i]).chain_id == x; assert(n[i].chain_id == x); }
    }
}
// source k owes nothing and has no buffer: it is flushed
proof fn lemma_buf_flush(b0: Seq<SourceRowBuffer>, rem: Seq<Seq<Row>>, ev: Seq<DE>, cl: Seq<bool>, t: TimestampRange, k: int, lo: int)
    requires bufs_ok(b0, rem, ev, cl, t, k + 1), lo == k, 0 <= k < rem.len(), rem[k].len() == 0, cl[k],
    ensures bufs_ok(b0, rem, ev.push(DE::Flush(k)), cl, t, lo)
{ lemma_push_flush(ev, DE::Flush(k)); }
// the buffer m gave its row and has no more: it goes
proof fn lemma_buf_remove(b0: Seq<SourceRowBuffer>, b1: Seq<SourceRowBuffer>, m: int, rem: Seq<Seq<Row>>, ev: Seq<DE>, row: Row, cl: Seq<bool>, t: TimestampRange)
    requires bufs_ok(b0, rem, ev, cl, t, 0), 0 <= m < b0.len(), b1 == b0.update(m, b1[m]), rem[b0[m].chain_id as int].len() == 1, cl[b0[m].chain_id as int],
    ensures ({ let k = b0[m].chain_id as int; bufs_ok(b1.remove(m), rem.update(k, rem[k].skip(1)), ev.push(DE::Row(k, row)).push(DE::Flush(k)), cl, t, 0) })
{
    let k = b0[m].chain_id as int;
    let e1 = ev.push(DE::Row(k, row));
    let e2 = e1.push(DE::Flush(k));
    let r1 = rem.update(k, rem[k].skip(1));
    let b = b1.remove(m);
    lemma_push_flush(ev, DE::Row(k, row));
    lemma_push_flush(e1, DE::Flush(k));
    assert forall|i: int| 0 <= i < b.len() implies buf_ok(#[trigger] b[i], r1, e2, cl, t) && b[i].chain_id >= 0 by {
        let q = if i < m { i } else { i + 1 };
        assert(b[i] == b0[q]);
        assert(buf_ok(b0[q], rem, ev, cl, t));
    }
    assert forall|x: int| 0 <= x < rem.len() implies if #[trigger] e2.contains(DE::Flush(x)) { r1[x].len() == 0 && cl[x] } else { has_buf(b, x) } by {
        assert(ev.contains(DE::Flush(x)) == e1.contains(DE::Flush(x)));
        if !e2.contains(DE::Flush(x)) {
            let i = choose|i: int| 0 <= i < b0.len() && (#[trigger] b0[i]).chain_id == x;
            assert(b[if i < m { i } else { i - 1 }].chain_id == x);
        }
    }
}
// the buffer m gave its row and holds the next one
proof fn lemma_buf_update(b0: Seq<SourceRowBuffer>, b1: Seq<SourceRowBuffer>, m: int, rem: Seq<Seq<Row>>, ev: Seq<DE>, row: Row, cl: Seq<bool>, t: TimestampRange)
    requires bufs_ok(b0, rem, ev, cl, t, 0), 0 <= m < b0.len(), b1 == b0.update(m, b1[m]), b1[m].chain_id == b0[m].chain_id,
        b1[m].row is Some, b1[m].inv(), b1[m].owed(t) == rem[b0[m].chain_id as int].skip(1),
        clean(b1[m].source.rows(), b1[m].source.ends(), t) == cl[b0[m].chain_id as int],
    ensures ({ let k = b0[m].chain_id as int; bufs_ok(b1, rem.update(k, rem[k].skip(1)), ev.push(DE::Row(k, row)), cl, t, 0) })
{
    let k = b0[m].chain_id as int;
    let e1 = ev.push(DE::Row(k, row));
    let r1 = rem.update(k, rem[k].skip(1));
    lemma_push_flush(ev, DE::Row(k, row));
    assert forall|i: int| 0 <= i < b1.len() implies buf_ok(#[trigger] b1[i], r1, e1, cl, t) && b1[i].chain_id >= 0 by {
        assert(buf_ok(b0[i], rem, ev, cl, t));
    }
    assert forall|i: int, j: int| 0 <= i < j < b1.len() implies (#[trigger] b1[i]).chain_id != (#[trigger] b1[j]).chain_id by {
        assert(b0[i].chain_id != b0[j].chain_id);
    }
    assert forall|x: int| 0 <= x < rem.len() implies if #[trigger] e1.contains(DE::Flush(x)) { r1[x].len() == 0 && cl[x] } else { has_buf(b1, x) } by {
        assert(ev.contains(DE::Flush(x)) == e1.contains(DE::Flush(x)));
        if !e1.contains(DE::Flush(x)) {
            let i = choose|i: int| 0 <= i < b0.len() && (#[trigger] b0[i]).chain_id == x;
            assert(b1[i].chain_id == x);
        }
    }
}
proof fn lemma_min(b: Seq<SourceRowBuffer>, rem: Seq<Seq<Row>>, ev: Seq<DE>, cl: Seq<bool>, t: TimestampRange, m: int)
    requires bufs_ok(b, rem, ev, cl, t, 0), 0 <= m < b.len(), forall|j: int| 0 <= j < b.len() ==> b[m].timestamp <= (#[trigger] b[j]).timestamp,
    ensures forall|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).len() > 0 ==> b[m].timestamp <= rem[j][0].timestamp
{
    assert forall|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).len() > 0 implies b[m].timestamp <= rem[j][0].timestamp by {
        assert(!ev.contains(DE::Flush(j)));
        assert(has_buf(b, j));
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).chain_id == j;
        assert(buf_ok(b[i], rem, ev, cl, t));
    }
}
// ---- what a driven run means for its user
spec fn rows_of(ev: Seq<DE>, k: int) -> Seq<Row> decreases ev.len() {
    if ev.len() == 0 { seq![] } else {
        let p = rows_of(ev.drop_last(), k);
        match ev.last() { DE::Row(j, r) => if j == k { p.push(r) } else { p }, DE::Flush(_) => p }
    }
}
spec fn times(ev: Seq<DE>) -> Seq<u64> decreases ev.len() {
    if ev.len() == 0 { seq![] } else {
        let p = times(ev.drop_last());
        match ev.last() { DE::Row(_, r) => p.push(r.timestamp), DE::Flush(_) => p }
    }
}
spec fn ascending(rows: Seq<Row>) -> bool { forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).timestamp <= (#[trigger] rows[j]).timestamp }
// the rows that came from source k, then those it still owes, are the rows it owed at first: none lost, none made up, none out of order
proof fn lemma_rows_of(rem: Seq<Seq<Row>>, ev: Seq<DE>, k: int)
    requires valid(rem, ev), 0 <= k < rem.len(),
    ensures rem_after(rem, ev).len() == rem.len(), rows_of(ev, k) + rem_after(rem, ev)[k] =~= rem[k],
    decreases ev.len()
{ if ev.len() > 0 { lemma_rows_of(rem, ev.drop_last(), k); } }
proof fn every_source_complete(a: Driver, b: Driver, ev: Seq<DE>, k: int)
    requires driven(a, b, ev), 0 <= k < a.sources@.len(),
    ensures rows_of(ev, k) =~= window(a.sources@[k].rows(), a.timestamp_range),
{ lemma_rows_of(owed0(a.sources@, a.timestamp_range), ev, k); }
// the merged order: ascending timestamps, if every source is ascending
proof fn lemma_times(rem: Seq<Seq<Row>>, ev: Seq<DE>)
    requires valid(rem, ev), forall|k: int| 0 <= k < rem.len() ==> ascending(#[trigger] rem[k]),
    ensures
        rem_after(rem, ev).len() == rem.len(),
        forall|k: int| 0 <= k < rem.len() ==> ascending(#[trigger] rem_after(rem, ev)[k]),
        forall|i: int, j: int| 0 <= i < j < times(ev).len() ==> (#[trigger] times(ev)[i]) <= (#[trigger] times(ev)[j]),
        forall|i: int, k: int| #![trigger times(ev)[i], rem_after(rem, ev)[k]] 0 <= i < times(ev).len() && 0 <= k < rem.len() && rem_after(rem, ev)[k].len() > 0 ==> times(ev)[i] <= rem_after(rem, ev)[k][0].timestamp,
    decreases ev.len()
{
    if ev.len() > 0 {
        let e = ev.drop_last();
        lemma_times(rem, e);
        let p = rem_after(rem, e);
        match ev.last() {
            DE::Row(k, r) => {
                assert(ascending(p[k]));
                assert forall|x: int| 0 <= x < rem.len() implies ascending(#[trigger] rem_after(rem, ev)[x]) by { assert(ascending(p[x])); }
                assert forall|i: int, x: int| #![trigger times(ev)[i], rem_after(rem, ev)[x]] 0 <= i < times(ev).len() && 0 <= x < rem.len() && rem_after(rem, ev)[x].len() > 0 implies times(ev)[i] <= rem_after(rem, ev)[x][0].timestamp by {
                    let q = rem_after(rem, ev)[x];
                    if x == k { assert(q[0] == p[k][1]); assert(p[k][0].timestamp <= p[k][1].timestamp); if i < times(e).len() { assert(times(e)[i] <= p[k][0].timestamp); } }
                    else { assert(p[x].len() > 0); if i < times(e).len() { assert(times(e)[i] <= p[x][0].timestamp); } }
                }
            }
            DE::Flush(_) => { }
        }
    }
}
// the window of an ascending source is exactly its rows with begin <= timestamp < end
spec fn in_range(ts: u64, t: TimestampRange) -> bool { (t.begin is Some ==> ts >= t.begin->Some_0) && (t.end is Some ==> ts < t.end->Some_0) }
spec fn keep(rows: Seq<Row>, t: TimestampRange) -> Seq<Row> decreases rows.len() {
    if rows.len() == 0 { seq![] } else if in_range(rows[0].timestamp, t) { seq![rows[0]] + keep(rows.skip(1), t) } else { keep(rows.skip(1), t) }
}
proof fn lemma_keep_none(rows: Seq<Row>, t: TimestampRange)
    requires ascending(rows), rows.len() > 0 ==> stops(rows[0].timestamp, t),
    ensures keep(rows, t).len() == 0,
    decreases rows.len()
{ if rows.len() > 0 { if rows.len() > 1 { assert(rows.skip(1)[0] == rows[1]); assert(rows[0].timestamp <= rows[1].timestamp); } lemma_keep_none(rows.skip(1), t); } }
proof fn window_is_range(rows: Seq<Row>, t: TimestampRange)
    requires ascending(rows),
    ensures window(rows, t) =~= keep(rows, t), ascending(window(rows, t)),
    decreases rows.len()
{
    lemma_window_in(rows, t);
    if rows.len() > 0 {
        window_is_range(rows.skip(1), t);
        if stops(rows[0].timestamp, t) { lemma_keep_none(rows, t); }
    }
}
proof fn lemma_window_in(rows: Seq<Row>, t: TimestampRange)
    requires ascending(rows),
    ensures ascending(window(rows, t)), forall|i: int| 0 <= i < window(rows, t).len() ==> rows.len() > 0 && rows[0].timestamp <= (#[trigger] window(rows, t)[i]).timestamp,
    decreases rows.len()
{ if rows.len() > 0 { lemma_window_in(rows.skip(1), t); if rows.len() > 1 { assert(rows.skip(1)[0] == rows[1]); assert(rows[0].timestamp <= rows[1].timestamp); } } }
proof fn merged_in_order(a: Driver, b: Driver, ev: Seq<DE>)
    requires driven(a, b, ev), forall|k: int| 0 <= k < a.sources@.len() ==> ascending((#[trigger] a.sources@[k]).rows()),
    ensures forall|i: int, j: int| 0 <= i < j < times(ev).len() ==> (#[trigger] times(ev)[i]) <= (#[trigger] times(ev)[j]),
{
    let rem = owed0(a.sources@, a.timestamp_range);
    assert forall|k: int| 0 <= k < rem.len() implies ascending(#[trigger] rem[k]) by { window_is_range(a.sources@[k].rows(), a.timestamp_range); }
    lemma_times(rem, ev);
}
fn main() {}
} // verus!
