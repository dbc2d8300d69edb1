//@include inc/base.inc
//@include inc/io_min.inc
//@include inc/types.inc
//@include inc/iter.inc
//@include inc/graph.inc
// ---- headers, by their names' texts and their types
type H = (Seq<Seq<char>>, Seq<FieldType>);
spec fn hv(h: Header) -> H { (Seq::new(h.field_names@.len(), |i: int| h.field_names@[i]@), h.field_types@) }
#[verifier::external_body]
fn names_eq(a: &Vec<String>, b: &Vec<String>) -> (r: bool) ensures r == (Seq::new(a@.len(), |i: int| a@[i]@) == Seq::new(b@.len(), |i: int| b@[i]@)) { unimplemented!() }
#[verifier::external_body]
fn types_eq(a: &Vec<FieldType>, b: &Vec<FieldType>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@rwall «$a.field_names == $b.field_names» => «names_eq(&$a.field_names, &$b.field_names)» (std PartialEq as a function with a contract)
//@rwall «$a.field_names != $b.field_names» => «!names_eq(&$a.field_names, &$b.field_names)» (std PartialEq as a function with a contract)
//@rwall «$a.field_names.eq(&$b.field_names)» => «names_eq(&$a.field_names, &$b.field_names)» (std PartialEq as a function with a contract)
//@rwall «$a.field_types == $b.field_types» => «types_eq(&$a.field_types, &$b.field_types)» (std PartialEq as a function with a contract)
//@rwall «$a.field_types != $b.field_types» => «!types_eq(&$a.field_types, &$b.field_types)» (std PartialEq as a function with a contract)
//@rwall «$a.field_types.eq(&$b.field_types)» => «types_eq(&$a.field_types, &$b.field_types)» (std PartialEq as a function with a contract)
//@rwall «$a.field_names().eq($b.field_names())» => «names_eq($a.field_names(), $b.field_names())» (std PartialEq as a function with a contract)
//@rwall «$a.field_types().eq($b.field_types())» => «types_eq($a.field_types(), $b.field_types())» (std PartialEq as a function with a contract)
//@rwall «$a.field_names() == $b.field_names()» => «names_eq($a.field_names(), $b.field_names())» (std PartialEq as a function with a contract)
//@rwall «$a.field_types() == $b.field_types()» => «types_eq($a.field_types(), $b.field_types())» (std PartialEq as a function with a contract)
//@rwall «$a.field_names() != $b.field_names()» => «!names_eq($a.field_names(), $b.field_names())» (std PartialEq as a function with a contract)
//@rwall «$a.field_types() != $b.field_types()» => «!types_eq($a.field_types(), $b.field_types())» (std PartialEq as a function with a contract)
impl PartialEq for Header {
    //@fn src/chopper/types.rs | PartialEq for Header | eq
        //@ret r
        // its contract is that of std's PartialEq with eq_spec below
    //@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Header {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &Header) -> bool { hv(*self) == hv(*other) }
}
#[verifier::external_body]
fn node_at(v: &mut Vec<HeaderNode>, i: usize) -> (r: &mut HeaderNode)      // v.get_mut(i).unwrap(): a panic is not modelled
    ensures i < old(v)@.len(), *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), *final(r) == *r ==> *final(v) == *old(v) { unimplemented!() }
#[verifier::external_body]
fn chain_at(v: &mut Vec<HeaderChain>, i: usize) -> (r: &mut HeaderChain)
    ensures i < old(v)@.len(), *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), *final(r) == *r ==> *final(v) == *old(v) { unimplemented!() }
#[verifier::external_body]
fn header_at(v: &mut Vec<Header>, i: usize) -> (r: &mut Header)
    requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body]
fn swap_remove_<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    ensures i < old(v)@.len(), r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, old(v)@.last()).drop_last() { unimplemented!() }
// the header a stage was made with, and what it makes of it (any function of the stage)
uninterp spec fn given(s: Box<dyn DataSink>) -> H;
uninterp spec fn out(id: int, h: H) -> H;
trait HeaderSink {
    spec fn id(&self) -> int;
    //@fn src/chopper/chopper.rs | trait HeaderSink | process_header
        //@ret r
        //@nobody
        //@spec
        ensures r matches Ok(s) ==> s.id() == self.id() && s.log().len() == 0 && given(s) == hv(*old(header)) && hv(*final(header)) == out(self.id(), hv(*old(header))),
    //@end
}
trait MergeHeaderSink {
    spec fn id(&self) -> int;
    spec fn joined(&self) -> Option<H>;       // the header of the inputs seen so far
    //@fn src/chopper/chopper.rs | trait MergeHeaderSink | check_header
        //@ret r
        //@nobody
        //@spec
        ensures
            final(self).id() == old(self).id(),
            r is Ok ==> final(self).joined() == Some(hv(*header)) && (old(self).joined() is Some ==> old(self).joined() == final(self).joined()),
            r is Err ==> old(self).joined() is Some && old(self).joined() != Some(hv(*header)),
    //@end
    //@fn src/chopper/chopper.rs | trait MergeHeaderSink | process_header
        //@ret r
        //@nobody
        //@spec
        requires old(self).joined() is Some,
        ensures final(self).id() == old(self).id(), old(self).joined() == Some(hv(r)), final(self).joined() is None,
    //@end
    //@fn src/chopper/chopper.rs | trait MergeHeaderSink | get_data_sink
        //@ret r
        //@nobody
        //@spec
        ensures r is Ok <==> self.joined() is None, r matches Ok(s) ==> s.id() == self.id() && s.log().len() == 0,
    //@end
}
trait SplitHeaderSink {
    spec fn ids(&self) -> Seq<usize>;
    //@fn src/chopper/chopper.rs | trait SplitHeaderSink | chain_ids
        //@ret r
        //@nobody
        //@spec
        ensures r@ == old(self).ids(), final(self).ids() == final(r)@,
    //@end
}
//@item src/chopper/header_graph.rs | struct | HeaderCountTracker
//@item src/chopper/header_graph.rs | enum | HeaderNode
//@item src/chopper/header_graph.rs | struct | HeaderChain
//@item src/chopper/header_graph.rs | struct | HeaderGraph
// ---- the graph that was given
enum Nd { Sink(int), Join(int), Split(Seq<int>), Merge(int) }
type G0 = Seq<Seq<Nd>>;
spec fn nd(n: HeaderNode) -> Nd {
    match n { HeaderNode::HeaderSink(s) => Nd::Sink(s.id()), HeaderNode::MergeHeaderSink(m, _) => Nd::Join(m.id()), HeaderNode::SplitHeaderSink(s, _) => Nd::Split(ints(s.ids())), HeaderNode::Merge(c) => Nd::Merge(c as int) }
}
spec fn chain_nds(c: HeaderChain) -> Seq<Nd> { Seq::new(c.nodes@.len(), |i: int| nd(c.nodes@[i])) }
spec fn graph0(g: HeaderGraph) -> G0 { Seq::new(g.header_chains@.len(), |i: int| chain_nds(g.header_chains@[i])) }
// a split's tracker counts its targets
spec fn counted(c: HeaderChain) -> bool { forall|i: int| 0 <= i < c.nodes@.len() ==> ((#[trigger] c.nodes@[i]) matches HeaderNode::SplitHeaderSink(s, k) ==> k.unprocessed_count >= s.ids().len()) }
spec fn feeds(g: G0, c: int, n: int, k: int, t: int) -> bool { 0 <= c < g.len() && 0 <= n < g[c].len() && (g[c][n] matches Nd::Split(v) && 0 <= k < v.len() && v[k] == t) }
spec fn joins(g: G0, t: int) -> bool { 0 <= t < g.len() && g[t].len() > 0 && g[t][0] is Join }
// a chain has one input, or it starts with a join
spec fn single(g: G0, sources: int) -> bool {
    &&& forall|c: int, n: int, k: int, t: int| #[trigger] feeds(g, c, n, k, t) ==> sources <= t < g.len() && !joins(g, t)
    &&& forall|c: int, n: int, k: int, c2: int, n2: int, k2: int, t: int| #[trigger] feeds(g, c, n, k, t) && #[trigger] feeds(g, c2, n2, k2, t) ==> c == c2 && n == n2 && k == k2
}
// the header at stage n of a chain that h enters
spec fn fold(ch: Seq<Nd>, h: H, n: int) -> H decreases n {
    if n <= 0 { h } else { match ch[n - 1] { Nd::Sink(id) => out(id, fold(ch, h, n - 1)), _ => fold(ch, h, n - 1) } }
}
// ---- the state of the work
enum By { Source, Feed(int, int, int), Join }
struct Tr {
    g0: G0,
    hin: Map<int, H>,           // the header that entered each chain done or being done
    m: Map<int, int>,           // how many of its stages are done
    j: Map<int, int>,           // how many targets of the next stage are done
    by: Map<int, By>,           // what it was entered from
    taken: Map<int, H>,         // the header of a join that is complete
    src: int,
}
spec fn waits(g: HeaderGraph, t: int, h: H) -> bool {
    0 <= t < g.header_chains@.len() && g.header_chains@[t].nodes@.len() > 0 && (g.header_chains@[t].nodes@[0] matches HeaderNode::MergeHeaderSink(m, k) && m.joined() == Some(h) && k.unprocessed_count > 0)
}
// chain t was given h, or its join was
spec fn fed(g: HeaderGraph, tr: Tr, t: int, h: H) -> bool {
    if tr.hin.contains_key(t) { tr.hin[t] == h } else if tr.taken.contains_key(t) { tr.taken[t] == h } else { waits(g, t, h) }
}
spec fn hat(tr: Tr, c: int, n: int) -> H { fold(tr.g0[c], tr.hin[c], n) }
spec fn node_ok(g: HeaderGraph, dg: DataGraph, tr: Tr, c: int, n: int) -> bool {
    let d = dg.data_chains@[c].nodes@[n];
    match tr.g0[c][n] {
        Nd::Sink(id) => d matches DataNode::DataSink(s) && s.id() == id && s.log().len() == 0 && given(s) == hat(tr, c, n),
        Nd::Join(id) => d matches DataNode::DataSink(s) && s.id() == id && s.log().len() == 0,
        Nd::Split(v) => d matches DataNode::Split(w) && ints(w@) == v && forall|k: int| 0 <= k < v.len() ==> fed(g, tr, #[trigger] v[k], hat(tr, c, n)),
        Nd::Merge(t) => d matches DataNode::Merge(t2) && t2 == t && fed(g, tr, t, hat(tr, c, n)),
    }
}
spec fn prov(tr: Tr, t: int) -> bool {
    tr.by.contains_key(t) && match tr.by[t] {
        By::Source => t < tr.src,
        By::Feed(c, n, k) => tr.hin.contains_key(c) && feeds(tr.g0, c, n, k, t) && (n < tr.m[c] || n == tr.m[c] && k < tr.j[c]),
        By::Join => joins(tr.g0, t),
    }
}
spec fn ok(g: HeaderGraph, dg: DataGraph, tr: Tr) -> bool {
    &&& g.header_chains@.len() == tr.g0.len() && dg.data_chains@.len() == tr.g0.len()
    &&& forall|c: int| #[trigger] tr.hin.contains_key(c) ==> 0 <= c < tr.g0.len() && g.header_chains@[c].nodes@.len() == 0 && 0 <= tr.m[c] <= dg.data_chains@[c].nodes@.len() <= tr.g0[c].len() && prov(tr, c)
    &&& forall|c: int| 0 <= c < tr.g0.len() && !tr.hin.contains_key(c) ==> chain_nds(#[trigger] g.header_chains@[c]) == tr.g0[c] && counted(g.header_chains@[c])
    &&& forall|c: int| 0 <= c < tr.g0.len() && !tr.hin.contains_key(c) ==> (#[trigger] dg.data_chains@[c]).nodes@.len() == 0
    &&& forall|c: int, n: int| #![trigger dg.data_chains@[c].nodes@[n]] tr.hin.contains_key(c) && 0 <= n < tr.m[c] ==> node_ok(g, dg, tr, c, n)
}
// what a step leaves as it was, and that the chains it enters are done (chain x may be in work)
spec fn after(g: HeaderGraph, dg: DataGraph, tr: Tr, g2: HeaderGraph, dg2: DataGraph, tr2: Tr, x: int) -> bool {
    &&& tr2.g0 == tr.g0 && tr2.src == tr.src
    &&& forall|c: int| #[trigger] tr.hin.contains_key(c) ==> tr2.hin.contains_key(c) && tr2.hin[c] == tr.hin[c] && dg2.data_chains@[c].nodes@ == dg.data_chains@[c].nodes@ && tr2.m[c] == tr.m[c] && tr2.j[c] == tr.j[c]
    &&& forall|c: int| #[trigger] tr2.hin.contains_key(c) && !tr.hin.contains_key(c) && 0 <= c && c != x ==> tr2.m[c] == tr.g0[c].len()
    &&& forall|t: int, h: H| #[trigger] fed(g, tr, t, h) ==> fed(g2, tr2, t, h)
}
spec fn start_of(g: G0) -> Tr { Tr { g0: g, hin: Map::empty(), m: Map::empty(), j: Map::empty(), by: Map::empty(), taken: Map::empty(), src: 0 } }
broadcast proof fn lemma_pushed(g: HeaderGraph, dg: DataGraph, tr: Tr, dg2: DataGraph, c: int, node: DataNode)
    requires #[trigger] ok(g, dg, tr), #[trigger] pushed(dg, dg2, c, node), tr.hin.contains_key(c), dg.data_chains@[c].nodes@.len() < tr.g0[c].len(),
    ensures ok(g, dg2, tr),
{
    assert forall|x: int, n: int| #![trigger dg2.data_chains@[x].nodes@[n]] tr.hin.contains_key(x) && 0 <= n < tr.m[x] implies node_ok(g, dg2, tr, x, n) by {
        assert(node_ok(g, dg, tr, x, n)) by { let y = dg.data_chains@[x].nodes@[n]; }
        assert(dg2.data_chains@[x].nodes@[n] == dg.data_chains@[x].nodes@[n]);
    }
}
// one stage done
proof fn lemma_done(g: HeaderGraph, dg: DataGraph, tr: Tr, c: int) -> (tr2: Tr)
    requires ok(g, dg, tr), tr.hin.contains_key(c), dg.data_chains@[c].nodes@.len() == tr.m[c] + 1, node_ok(g, dg, tr, c, tr.m[c]),
    ensures tr2 == (Tr { m: tr.m.insert(c, tr.m[c] + 1), j: tr.j.insert(c, 0), ..tr }), ok(g, dg, tr2),
{
    let tr2 = Tr { m: tr.m.insert(c, tr.m[c] + 1), j: tr.j.insert(c, 0), ..tr };
    assert forall|x: int| #[trigger] tr2.hin.contains_key(x) implies prov(tr2, x) by { assert(tr.hin.contains_key(x)); assert(prov(tr, x)); }
    assert forall|x: int, n: int| #![trigger dg.data_chains@[x].nodes@[n]] tr2.hin.contains_key(x) && 0 <= n < tr2.m[x] implies node_ok(g, dg, tr2, x, n) by {
        assert(tr.hin.contains_key(x));
        assert(node_ok(g, dg, tr, x, n)) by { let y = dg.data_chains@[x].nodes@[n]; }
    }
    tr2
}
// a chain is entered
proof fn lemma_enter(g: HeaderGraph, dg: DataGraph, tr: Tr, g2: HeaderGraph, c: int, h: H) -> (tr2: Tr)
    requires
        ok(g, dg, tr), 0 <= c < tr.g0.len(), !tr.hin.contains_key(c), prov(tr, c),
        if tr.taken.contains_key(c) { tr.taken[c] == h } else { !joins(tr.g0, c) },
        g2.header_chains@.len() == g.header_chains@.len(), g2.header_chains@[c].nodes@.len() == 0,
        forall|i: int| 0 <= i < g.header_chains@.len() && i != c ==> #[trigger] g2.header_chains@[i] == g.header_chains@[i],
    ensures
        tr2 == (Tr { hin: tr.hin.insert(c, h), m: tr.m.insert(c, 0), j: tr.j.insert(c, 0), ..tr }), ok(g2, dg, tr2), after(g, dg, tr, g2, dg, tr2, c),
{
    let tr2 = Tr { hin: tr.hin.insert(c, h), m: tr.m.insert(c, 0), j: tr.j.insert(c, 0), ..tr };
    let ch = g.header_chains@[c];
    assert(chain_nds(ch) == tr.g0[c]);
    assert forall|t: int, x: H| #[trigger] fed(g, tr, t, x) implies fed(g2, tr2, t, x) by {
        if t == c && !tr.taken.contains_key(c) { assert(waits(g, t, x)); assert(chain_nds(ch)[0] is Join); }
    }
    assert forall|x: int| #[trigger] tr2.hin.contains_key(x) implies prov(tr2, x) by { if x != c { assert(tr.hin.contains_key(x)); assert(prov(tr, x)); } }
    assert forall|x: int, n: int| #![trigger dg.data_chains@[x].nodes@[n]] tr2.hin.contains_key(x) && 0 <= n < tr2.m[x] implies node_ok(g2, dg, tr2, x, n) by {
        assert(tr.hin.contains_key(x));
        lemma_kept(g, dg, tr, g2, dg, tr2, c, x, n);
    }
    tr2
}
proof fn lemma_kept(g: HeaderGraph, dg: DataGraph, tr: Tr, g2: HeaderGraph, dg2: DataGraph, tr2: Tr, x: int, c: int, n: int)
    requires ok(g, dg, tr), after(g, dg, tr, g2, dg2, tr2, x), tr.hin.contains_key(c), 0 <= n < tr.m[c],
    ensures node_ok(g2, dg2, tr2, c, n),
{
    assert(node_ok(g, dg, tr, c, n)) by { let y = dg.data_chains@[c].nodes@[n]; }
}
// a target of a split has not been entered yet
proof fn lemma_target(g: HeaderGraph, dg: DataGraph, tr: Tr, c: int, k: int, t: int) -> (tr2: Tr)
    requires ok(g, dg, tr), tr.hin.contains_key(c), feeds(tr.g0, c, tr.m[c], k, t), tr.j[c] == k, single(tr.g0, tr.src),
    ensures tr2 == (Tr { by: tr.by.insert(t, By::Feed(c, tr.m[c], k)), j: tr.j.insert(c, k + 1), ..tr }), !tr.hin.contains_key(t), ok(g, dg, tr2), prov(tr2, t), !joins(tr.g0, t), t < tr.g0.len(),
        forall|u: int, h: H| #[trigger] fed(g, tr, u, h) == fed(g, tr2, u, h),
{
    let tr2 = Tr { by: tr.by.insert(t, By::Feed(c, tr.m[c], k)), j: tr.j.insert(c, k + 1), ..tr };
    if tr.hin.contains_key(t) {
        assert(prov(tr, t));
        match tr.by[t] {
            By::Feed(c2, n2, k2) => { assert(feeds(tr.g0, c2, n2, k2, t)); assert(feeds(tr.g0, c, tr.m[c], k, t)); assert(false); }
            _ => { assert(feeds(tr.g0, c, tr.m[c], k, t)); assert(false); }
        }
    }
    assert forall|x: int| #[trigger] tr2.hin.contains_key(x) implies prov(tr2, x) by { assert(tr.hin.contains_key(x)); assert(prov(tr, x)); }
    assert forall|x: int, n: int| #![trigger dg.data_chains@[x].nodes@[n]] tr2.hin.contains_key(x) && 0 <= n < tr2.m[x] implies node_ok(g, dg, tr2, x, n) by {
        assert(node_ok(g, dg, tr, x, n)) by { let y = dg.data_chains@[x].nodes@[n]; }
    }
    tr2
}
broadcast proof fn lemma_after_trans(g: HeaderGraph, dg: DataGraph, tr: Tr, g2: HeaderGraph, dg2: DataGraph, tr2: Tr, g3: HeaderGraph, dg3: DataGraph, tr3: Tr, x: int)
    requires #[trigger] after(g, dg, tr, g2, dg2, tr2, x), #[trigger] after(g2, dg2, tr2, g3, dg3, tr3, -1),
    ensures after(g, dg, tr, g3, dg3, tr3, x),
{
    assert forall|t: int, h: H| #[trigger] fed(g, tr, t, h) implies fed(g3, tr3, t, h) by { assert(fed(g2, tr2, t, h)); }
    assert forall|c: int| #[trigger] tr3.hin.contains_key(c) && !tr.hin.contains_key(c) && 0 <= c && c != x implies tr3.m[c] == tr.g0[c].len() by { if tr2.hin.contains_key(c) { } }
}
spec fn taken_ok(tr: Tr, x: int) -> bool { forall|t: int| #[trigger] tr.taken.contains_key(t) ==> tr.hin.contains_key(t) || (0 <= t && t == x) }
// g2 is g but for the first node of chain t, a join that is given h
spec fn touched(g: HeaderGraph, g2: HeaderGraph, t: int, h: H) -> bool {
    &&& 0 <= t < g.header_chains@.len() && g2.header_chains@.len() == g.header_chains@.len()
    &&& forall|i: int| 0 <= i < g.header_chains@.len() && i != t ==> #[trigger] g2.header_chains@[i] == g.header_chains@[i]
    &&& g.header_chains@[t].nodes@.len() > 0 && g2.header_chains@[t].nodes@.len() == g.header_chains@[t].nodes@.len()
    &&& forall|i: int| 0 < i < g.header_chains@[t].nodes@.len() ==> #[trigger] g2.header_chains@[t].nodes@[i] == g.header_chains@[t].nodes@[i]
    &&& g.header_chains@[t].nodes@[0] matches HeaderNode::MergeHeaderSink(a, _) && (a.joined() is None || a.joined() == Some(h)) && (g2.header_chains@[t].nodes@[0] matches HeaderNode::MergeHeaderSink(b, _) && b.id() == a.id())
}
proof fn lemma_touched(g: HeaderGraph, g2: HeaderGraph, dg: DataGraph, tr: Tr, tr2: Tr, t: int, h: H)
    requires
        ok(g, dg, tr), taken_ok(tr, -1), touched(g, g2, t, h),
        tr2 == tr && waits(g2, t, h) || tr2 == (Tr { taken: tr.taken.insert(t, h), by: tr.by.insert(t, By::Join), ..tr }),
    ensures ok(g2, dg, tr2), after(g, dg, tr, g2, dg, tr2, -1), !tr.hin.contains_key(t), joins(tr.g0, t), fed(g2, tr2, t, h), chain_nds(g2.header_chains@[t]) == tr.g0[t],
{
    let a = g.header_chains@[t]; let b = g2.header_chains@[t];
    assert(!tr.hin.contains_key(t));
    assert(chain_nds(a) == tr.g0[t] && counted(a));
    assert(chain_nds(a)[0] == nd(a.nodes@[0]));
    assert(chain_nds(b) =~= chain_nds(a));
    assert(counted(b)) by {
        assert forall|i: int| 0 <= i < b.nodes@.len() implies ((#[trigger] b.nodes@[i]) matches HeaderNode::SplitHeaderSink(s, k) ==> k.unprocessed_count >= s.ids().len()) by { if i > 0 { assert(b.nodes@[i] == a.nodes@[i]); } }
    }
    assert forall|u: int, x: H| #[trigger] fed(g, tr, u, x) implies fed(g2, tr2, u, x) by { if u == t { assert(waits(g, t, x)); } }
    assert forall|x: int| #[trigger] tr2.hin.contains_key(x) implies prov(tr2, x) by { assert(tr.hin.contains_key(x)); assert(prov(tr, x)); }
    assert forall|x: int, n: int| #![trigger dg.data_chains@[x].nodes@[n]] tr2.hin.contains_key(x) && 0 <= n < tr2.m[x] implies node_ok(g2, dg, tr2, x, n) by {
        lemma_kept(g, dg, tr, g2, dg, tr2, -1, x, n);
    }
}
proof fn lemma_joined(g: HeaderGraph, g2: HeaderGraph, dg: DataGraph, tr: Tr, t: int, h: H) -> (tr2: Tr)
    requires ok(g, dg, tr), taken_ok(tr, -1), touched(g, g2, t, h),
    ensures ok(g2, dg, tr2), after(g, dg, tr, g2, dg, tr2, -1), !tr2.hin.contains_key(t), prov(tr2, t), tr2.taken.contains_key(t), tr2.taken[t] == h, taken_ok(tr2, t), tr2.g0 == tr.g0, tr2.src == tr.src, 0 <= t < tr.g0.len(),
{
    let tr2 = Tr { taken: tr.taken.insert(t, h), by: tr.by.insert(t, By::Join), ..tr };
    lemma_touched(g, g2, dg, tr, tr2, t, h);
    tr2
}
proof fn lemma_source(g: HeaderGraph, dg: DataGraph, tr: Tr) -> (tr2: Tr)
    requires ok(g, dg, tr),
    ensures tr2 == (Tr { src: tr.src + 1, by: tr.by.insert(tr.src, By::Source), ..tr }), ok(g, dg, tr2), forall|t: int, h: H| #![trigger fed(g, tr, t, h)] #![trigger fed(g, tr2, t, h)] fed(g, tr, t, h) == fed(g, tr2, t, h),
        after(g, dg, Tr { src: tr.src + 1, ..tr }, g, dg, tr2, -1),
{
    let tr2 = Tr { src: tr.src + 1, by: tr.by.insert(tr.src, By::Source), ..tr };
    assert forall|x: int| #[trigger] tr2.hin.contains_key(x) implies prov(tr2, x) by { assert(tr.hin.contains_key(x)); assert(prov(tr, x)); }
    assert forall|x: int, n: int| #![trigger dg.data_chains@[x].nodes@[n]] tr2.hin.contains_key(x) && 0 <= n < tr2.m[x] implies node_ok(g, dg, tr2, x, n) by {
        assert(node_ok(g, dg, tr, x, n)) by { let y = dg.data_chains@[x].nodes@[n]; }
    }
    tr2
}
// ---- the result: every chain that was entered is complete, with one header for all that enters it
spec fn graph_ok(g0: G0, headers: Seq<Header>, dg: DataGraph) -> bool {
    exists|g: HeaderGraph, tr: Tr| #![trigger ok(g, dg, tr)]
        ok(g, dg, tr) && tr.g0 == g0
        && (forall|c: int| #[trigger] tr.hin.contains_key(c) ==> tr.m[c] == g0[c].len())
        && (forall|i: int| 0 <= i < headers.len() ==> fed(g, tr, i, hv(#[trigger] headers[i])))
}
//@rwall «$v.nodes.get_mut(0).unwrap()» => «node_at(&mut $v.nodes, 0)» (std methods as a function with a contract; its panic is not modelled)
//@rwall «$v.get_mut_nodes().get_mut(0).unwrap()» => «node_at($v.get_mut_nodes(), 0)» (std methods as a function with a contract; its panic is not modelled)
//@rwall «$v.header_chains.get_mut($i).unwrap()» => «chain_at(&mut $v.header_chains, $i)» (std methods as a function with a contract; its panic is not modelled)
//@rwall «$v.header_chains.swap_remove($i)» => «swap_remove_(&mut $v.header_chains, $i)» (std method as a function with a contract)
//@rwall «$s.match_remove_chain($a, $b, $c)» => «$s.match_remove_chain($a, $b, $c, tr)» (ghost argument)
//@rwall «$s.check_merge_header($a, $b, $c)» => «$s.check_merge_header($a, $b, $c, tr)» (ghost argument)
impl HeaderChain {
    //@fn src/chopper/header_graph.rs | HeaderChain | new
        //@ret r
        //@spec
        ensures r.nodes == nodes,
    //@end
    //@fn src/chopper/header_graph.rs | HeaderChain | add_nodes
        //@spec
        ensures final(self).nodes@ == old(self).nodes@.push(node),
    //@end
    //@fn src/chopper/header_graph.rs | HeaderChain | get_mut_nodes
        //@ret r
        //@spec
        ensures *r == old(self).nodes, final(self).nodes == *final(r),
    //@end
}
impl HeaderGraph {
    //@fn src/chopper/header_graph.rs | HeaderGraph | new
        //@ret r
        //@spec
        ensures r.header_chains == header_chains,
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | len
        //@ret r
        //@spec
        ensures r == self.header_chains@.len(),
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | get_mut_chain
        //@ret r
        //@spec
        ensures
            chain_id >= old(self).header_chains@.len() ==> r is None,
            chain_id < old(self).header_chains@.len() ==> (r matches Some(c) && *c == old(self).header_chains@[chain_id as int] && final(self).header_chains@ == old(self).header_chains@.update(chain_id as int, *final(c))),
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | swap_remove
        //@ret r
        //@spec
        ensures
            chain_id < old(self).header_chains@.len() ==> r == old(self).header_chains@[chain_id as int] && final(self).header_chains@.len() == old(self).header_chains@.len()
                && final(self).header_chains@[chain_id as int].nodes@.len() == 0 && forall|i: int| 0 <= i < old(self).header_chains@.len() && i != chain_id ==> #[trigger] final(self).header_chains@[i] == old(self).header_chains@[i],
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | match_remove_chain
        //@ret r
        //@attr #[verifier::exec_allows_no_decreases_clause]
        //@attr #[verifier::loop_isolation(false)]
        //@sig «header: &mut Header,» => «header: &mut Header, tr: &mut Ghost<Tr>,» (ghost argument)
        //@rw «for $i in $e.chain_ids() {» => «let ids_ = $e.chain_ids(); let ghost ids0 = ids_@; proof { assert(tr@.g0[c][it.index@] == Nd::Split(ints(ids0))); } for k_ in 0..ids_.len() { let $i = &ids_[k_]; let ghost dgk = *data_graph; proof { assert(feeds(tr@.g0, c, tr@.m[c], k_ as int, ids0[k_ as int] as int)); } *tr = Ghost(lemma_target(self_, *data_graph, tr@, c, k_ as int, ids0[k_ as int] as int)); proof { assert(after(g_0, dg0, tr0, self_, *data_graph, tr@, c)); assert(forall|k: int| 0 <= k < k_ ==> fed(self_, tr@, (#[trigger] ids0[k]) as int, hat(tr@, c, it.index@))); }» (iteration with index)
        //@rw «let $c = self_.swap_remove($i);» => «let $c = self_.swap_remove($i); proof { assert(chain_nds($c) == tr0.g0[c]); } *tr = Ghost(lemma_enter(g_0, dg0, tr0, self_, c, h0));» (proof text)
        //@iter 0 it
        //@spec
        requires
            ok(self, *old(data_graph), old(tr)@), chain_id < old(tr)@.g0.len(), !old(tr)@.hin.contains_key(chain_id as int), prov(old(tr)@, chain_id as int),
            if old(tr)@.taken.contains_key(chain_id as int) { old(tr)@.taken[chain_id as int] == hv(*old(header)) } else { !joins(old(tr)@.g0, chain_id as int) },
            single(old(tr)@.g0, old(tr)@.src), taken_ok(old(tr)@, chain_id as int),
        ensures
            r is Ok ==> taken_ok(final(tr)@, -1),
            r matches Ok(g) ==> ok(g, *final(data_graph), final(tr)@) && after(self, *old(data_graph), old(tr)@, g, *final(data_graph), final(tr)@, -1)
                && final(tr)@.hin.contains_key(chain_id as int) && final(tr)@.hin[chain_id as int] == hv(*old(header)),
        //@start
        let ghost g_0 = self; let ghost dg0 = *data_graph; let ghost tr0 = tr@; let ghost h0 = hv(*header); let ghost c = chain_id as int;
        //@loop 0
            invariant
                taken_ok(tr@, -1), tr@.hin.contains_key(c), tr@.hin[c] == h0, tr@.m[c] == it.index@, tr@.j[c] == 0, data_graph.data_chains@[c].nodes@.len() == it.index@,
                ok(self_, *data_graph, tr@), after(g_0, dg0, tr0, self_, *data_graph, tr@, c),
                hv(*header) == hat(tr@, c, it.index@),
        //@loop 1
            invariant
                ids_@ == ids0, header_count_tracker.unprocessed_count >= ids0.len() - k_,
                taken_ok(tr@, -1), tr@.hin.contains_key(c), tr@.hin[c] == h0, tr@.m[c] == it.index@, tr@.j[c] == k_, data_graph.data_chains@[c].nodes@.len() == it.index@,
                ok(self_, *data_graph, tr@), after(g_0, dg0, tr0, self_, *data_graph, tr@, c),
                hv(*header) == hat(tr@, c, it.index@),
                forall|k: int| 0 <= k < k_ ==> fed(self_, tr@, (#[trigger] ids0[k]) as int, hat(tr@, c, it.index@)),
        //@loopstart 0
            broadcast use {lemma_pushed, lemma_after_trans};
            let ghost n = it.index@;
            proof { assert(nd(node) == tr0.g0[c][n]); }
        //@loopend 0
            *tr = Ghost(lemma_done(self_, *data_graph, tr@, c));
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | check_merge_header
        //@ret r
        //@attr #[verifier::exec_allows_no_decreases_clause]
        //@sig «header: &mut Header,» => «header: &mut Header, tr: &mut Ghost<Tr>,» (ghost argument)
        //@rw «let mut $h = mhs.process_header();» => «let mut $h = mhs.process_header(); *tr = Ghost(lemma_joined(g_0, self_, *data_graph, tr0, chain_id as int, hv($h)));» (proof text)
        //@spec
        requires ok(self, *old(data_graph), old(tr)@), single(old(tr)@.g0, old(tr)@.src), taken_ok(old(tr)@, -1),
        ensures
            r is Ok ==> taken_ok(final(tr)@, -1),
            *final(header) == *old(header),
            r matches Ok(g) ==> ok(g, *final(data_graph), final(tr)@) && after(self, *old(data_graph), old(tr)@, g, *final(data_graph), final(tr)@, -1)
                && fed(g, final(tr)@, chain_id as int, hv(*old(header))),
        //@start
        broadcast use lemma_after_trans;
        let ghost g_0 = self; let ghost dg0 = *data_graph; let ghost tr0 = tr@; let ghost h0 = hv(*header);
        //@returns
        proof { if tr@ == tr0 && touched(g_0, self_, chain_id as int, h0) && waits(self_, chain_id as int, h0) { lemma_touched(g_0, self_, dg0, tr0, tr0, chain_id as int, h0); } }
        //@end-of-body
        proof { if tr@ == tr0 && touched(g_0, self_, chain_id as int, h0) && waits(self_, chain_id as int, h0) { lemma_touched(g_0, self_, dg0, tr0, tr0, chain_id as int, h0); } }
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | process_header_re
        //@ret r
        //@sig «header: &mut Header,» => «header: &mut Header, tr: &mut Ghost<Tr>,» (ghost argument)
        //@spec
        requires
            ok(self, *old(data_graph), old(tr)@), single(old(tr)@.g0, old(tr)@.src + 1), chain_id == old(tr)@.src, taken_ok(old(tr)@, -1),
        ensures
            r matches Ok(g) ==> ok(g, *final(data_graph), final(tr)@) && taken_ok(final(tr)@, -1) && fed(g, final(tr)@, chain_id as int, hv(*old(header)))
                && after(self, *old(data_graph), Tr { src: chain_id + 1, ..old(tr)@ }, g, *final(data_graph), final(tr)@, -1)
                && (forall|t: int, h: H| #[trigger] fed(self, old(tr)@, t, h) ==> fed(g, final(tr)@, t, h)),
        //@start
        broadcast use lemma_after_trans;
        let ghost g_0 = self;
        *tr = Ghost(lemma_source(self, *data_graph, tr@));
        proof { assert(forall|c: int| 0 <= c < g_0.header_chains@.len() ==> chain_nds(#[trigger] g_0.header_chains@[c]).len() == g_0.header_chains@[c].nodes@.len()); }
    //@end
    //@fn src/chopper/header_graph.rs | HeaderGraph | process_header
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@rw «header.get_mut($i).unwrap()» => «header_at(&mut header, $i)» (std methods as a function with a contract)
        //@rw «self_.process_header_re($a, $b, $c)» => «self_.process_header_re($a, $b, $c, &mut tr)» (ghost argument)
        //@spec
        requires single(graph0(self), header@.len() as int), forall|i: int| 0 <= i < self.header_chains@.len() ==> counted(#[trigger] self.header_chains@[i]),
        ensures r matches Ok(dg) ==> graph_ok(graph0(self), header@, dg) && dg.data_chains@.len() == self.header_chains@.len(),
        //@start
        let ghost g_0 = self; let ghost headers = header@;
        let mut tr = Ghost(start_of(graph0(self)));
        //@loop 0
            invariant
                header@.len() == headers.len(), forall|k: int| i <= k < headers.len() ==> #[trigger] header@[k] == headers[k],
                ok(self_, data_graph, tr@), tr@.g0 == graph0(g_0), tr@.src == i, taken_ok(tr@, -1),
                forall|c: int| #[trigger] tr@.hin.contains_key(c) ==> tr@.m[c] == tr@.g0[c].len(),
                forall|k: int| 0 <= k < i ==> fed(self_, tr@, k, hv(#[trigger] headers[k])),
    //@end
}
// ---- the driver is made of the sources as given, the range as given, and the data graph of the header graph
trait Source {}
//@item src/chopper/types.rs | struct | TimestampRange
//@item src/driver/driver.rs | struct | Driver
impl Driver {
    //@fn src/driver/driver.rs | Driver | new
        //@ret r
        //@spec
        requires single(graph0(header_graph), headers@.len() as int), forall|i: int| 0 <= i < header_graph.header_chains@.len() ==> counted(#[trigger] header_graph.header_chains@[i]),
        ensures
            r matches Ok(d) ==> {
                &&& d.sources == sources
                &&& d.timestamp_range == timestamp_range
                &&& graph_ok(graph0(header_graph), headers@, d.data_graph)
                &&& sources@.len() <= shape(d.data_graph).len()       // as drive requires
            },
    //@end
}
//@item src/driver/merge_join.rs | struct | MergeJoin
impl MergeJoin {
    // Box::new: the merge as a stage, which passes rows on unchanged
    #[verifier::external_body]
    fn boxed(self) -> (r: Box<dyn DataSink>) ensures r.id() == 0, r.log().len() == 0 { unimplemented!() }
    //@fn src/driver/merge_join.rs | MergeJoin | add_header
        //@spec
        ensures final(self).header matches Some(h) && hv(h) == hv(*header),
    //@end
}
impl MergeJoin {
    // a merge leaves the rows as they are (the default of the trait, which it does not override)
    //@fn src/driver/merge_join.rs | DataSink for MergeJoin | write_row | or src/chopper/chopper.rs | trait DataSink
        //@ret r
        //@spec
        ensures r is Ok, final(io_rows)@ == old(io_rows)@,
    //@end
    //@fn src/driver/merge_join.rs | DataSink for MergeJoin | flush | or src/chopper/chopper.rs | trait DataSink
        //@ret r
        //@spec
        ensures r is Ok,
    //@end
    //@fn src/driver/merge_join.rs | MergeJoin | new
        //@ret r
        //@rw «$e as Box<dyn MergeHeaderSink>» => «$e» (coercion)
        //@spec
        ensures r is Ok <==> merge_source_count > 0, r matches Ok(m) ==> m.joined() is None,
    //@end
    //@fn src/driver/merge_join.rs | MergeHeaderSink for MergeJoin | get_new_header_count_tracker
        //@ret r
        //@spec
        ensures r.unprocessed_count == self.merge_source_count,
    //@end
}
impl MergeHeaderSink for MergeJoin {
    spec fn id(&self) -> int { 0 }
    spec fn joined(&self) -> Option<H> { match self.header { Some(h) => Some(hv(h)), None => None } }
    //@fn src/driver/merge_join.rs | MergeHeaderSink for MergeJoin | check_header
        //@ret r
        //@spec
    //@end
    //@fn src/driver/merge_join.rs | MergeHeaderSink for MergeJoin | process_header
        //@ret r
        //@spec
    //@end
    //@fn src/driver/merge_join.rs | MergeHeaderSink for MergeJoin | get_data_sink
        //@ret r
        //@spec
    //@end
}
//@item src/driver/split.rs | struct | Split
impl SplitHeaderSink for Split {
    spec fn ids(&self) -> Seq<usize> { self.chain_ids@ }
    //@fn src/driver/split.rs | SplitHeaderSink for Split | chain_ids
        //@ret r
        //@spec
    //@end
}
impl Split {
    //@fn src/driver/split.rs | Split | new
        //@ret r
        //@rw «$e as Box<dyn SplitHeaderSink>» => «$e» (coercion)
        //@spec
        ensures r.ids() == chain_ids@,
    //@end
    // a split's tracker counts its targets, as `counted` assumes of a graph's nodes
    //@fn src/driver/split.rs | SplitHeaderSink for Split | get_new_header_count_tracker
        //@ret r
        //@spec
        ensures r.unprocessed_count == self.chain_ids@.len(),
    //@end
}
fn main() {}
} // verus!
