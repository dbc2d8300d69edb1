// ---- data sinks: the trait of src/chopper/chopper.rs with a contract.
// log(): what the sink was given so far; emits(): the rows it puts in place of a row (any function of its history)
enum Ev { Row(Row), Flush }
uninterp spec fn emits(id: int, log: Seq<Ev>, row: Row) -> Seq<Row>;
trait DataSink {
    spec fn id(&self) -> int;
    spec fn log(&self) -> Seq<Ev>;
    //@fn src/chopper/chopper.rs | trait DataSink | write_row
        //@ret r
        //@nobody
        //@spec
        requires old(io_rows)@.len() == 1,
        ensures
            final(self).id() == old(self).id(),
            r is Ok ==> final(self).log() == old(self).log().push(Ev::Row(old(io_rows)@[0])) && final(io_rows)@ == emits(old(self).id(), old(self).log(), old(io_rows)@[0]),
    //@end
    //@fn src/chopper/chopper.rs | trait DataSink | flush
        //@ret r
        //@nobody
        //@spec
        ensures
            final(self).id() == old(self).id(),
            r is Ok ==> final(self).log() == old(self).log().push(Ev::Flush),
    //@end
}
//@item src/chopper/types.rs | type | ChainId
//@item src/chopper/types.rs | type | NodeId
//@item src/chopper/data_graph.rs | enum | DataNode
//@item src/chopper/data_graph.rs | struct | DataChain
//@item src/chopper/data_graph.rs | struct | DataGraph
// ---- what a graph looks like, and what its sinks were given
enum Sh { Sink(int), Merge(int), Split(Seq<int>) }
type Shape = Seq<Seq<Sh>>;
type Logs = Seq<Seq<Seq<Ev>>>;
spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
spec fn node_shape(n: DataNode) -> Sh {
    match n { DataNode::DataSink(s) => Sh::Sink(s.id()), DataNode::Merge(c) => Sh::Merge(c as int), DataNode::Split(v) => Sh::Split(ints(v@)) }
}
spec fn node_log(n: DataNode) -> Seq<Ev> { match n { DataNode::DataSink(s) => s.log(), _ => seq![] } }
spec fn chain_shape(c: DataChain) -> Seq<Sh> { Seq::new(c.nodes@.len(), |i: int| node_shape(c.nodes@[i])) }
spec fn chain_logs(c: DataChain) -> Seq<Seq<Ev>> { Seq::new(c.nodes@.len(), |i: int| node_log(c.nodes@[i])) }
spec fn shape(g: DataGraph) -> Shape { Seq::new(g.data_chains@.len(), |i: int| chain_shape(g.data_chains@[i])) }
spec fn logs(g: DataGraph) -> Logs { Seq::new(g.data_chains@.len(), |i: int| chain_logs(g.data_chains@[i])) }
impl DataChain {
    //@fn src/chopper/data_graph.rs | DataChain | new
        //@ret r
        //@spec
        ensures r.nodes@ == Seq::<DataNode>::empty(),
    //@end
    //@fn src/chopper/data_graph.rs | DataChain | nodes
        //@ret r
        //@spec
        ensures *r == old(self).nodes, final(self).nodes == *final(r),
    //@end
    //@fn src/chopper/data_graph.rs | DataChain | node
        //@ret r
        //@spec
        requires node_id < old(self).nodes@.len(),
        ensures *r == old(self).nodes@[node_id as int], final(self).nodes@ == old(self).nodes@.update(node_id as int, *final(r)),
    //@end
}
impl DataGraph {
    //@fn src/chopper/data_graph.rs | DataGraph | new
        //@ret r
        //@spec
        ensures r.data_chains@.len() == chain_len, forall|i: int| 0 <= i < chain_len ==> (#[trigger] r.data_chains@[i]).nodes@ == Seq::<DataNode>::empty(),
        //@loop 0
            invariant data_chains@.len() == _i, forall|i: int| 0 <= i < _i ==> (#[trigger] data_chains@[i]).nodes@ == Seq::<DataNode>::empty(),
    //@end
    //@fn src/chopper/data_graph.rs | DataGraph | len
        //@ret r
        //@spec
        ensures r == self.data_chains@.len(),
    //@end
    //@fn src/chopper/data_graph.rs | DataGraph | get_chain_node_count
        //@ret r
        //@spec
        requires chain_id < self.data_chains@.len(),
        ensures r == self.data_chains@[chain_id as int].nodes@.len(),
    //@end
    //@fn src/chopper/data_graph.rs | DataGraph | get_mut_chain
        //@ret r
        //@spec
        requires chain_id < old(self).data_chains@.len(),
        ensures *r == old(self).data_chains@[chain_id as int], final(self).data_chains@ == old(self).data_chains@.update(chain_id as int, *final(r)),
    //@end
    //@fn src/chopper/data_graph.rs | DataGraph | get_chain_node_mut
        //@ret r
        //@spec
        requires chain_id < old(self).data_chains@.len(), node_id < old(self).data_chains@[chain_id as int].nodes@.len(),
        ensures
            *r == old(self).data_chains@[chain_id as int].nodes@[node_id as int],
            node_set(*old(self), *final(self), chain_id as int, node_id as int, *final(r)),
    //@end
    //@fn src/chopper/data_graph.rs | DataGraph | add_node
        //@ret r
        //@spec
        ensures
            r is Ok <==> chain_id < old(self).data_chains@.len(),
            r is Ok ==> final(self).data_chains@.len() == old(self).data_chains@.len()
                && final(self).data_chains@[chain_id as int].nodes@ == old(self).data_chains@[chain_id as int].nodes@.push(node)
                && forall|i: int| 0 <= i < final(self).data_chains@.len() && i != chain_id ==> #[trigger] final(self).data_chains@[i] == old(self).data_chains@[i],
            r is Err ==> final(self).data_chains@ == old(self).data_chains@,
            r is Ok ==> pushed(*old(self), *final(self), chain_id as int, node),
    //@end
}
// g2 is g1 with a node more at the end of chain c
spec fn pushed(g1: DataGraph, g2: DataGraph, c: int, node: DataNode) -> bool {
    &&& 0 <= c < g1.data_chains@.len() && g2.data_chains@.len() == g1.data_chains@.len()
    &&& g2.data_chains@[c].nodes@ == g1.data_chains@[c].nodes@.push(node)
    &&& forall|i: int| 0 <= i < g1.data_chains@.len() && i != c ==> #[trigger] g2.data_chains@[i] == g1.data_chains@[i]
}
// g2 is g1 with node n of chain c replaced
spec fn node_set(g1: DataGraph, g2: DataGraph, c: int, n: int, node: DataNode) -> bool {
    &&& g2.data_chains@.len() == g1.data_chains@.len()
    &&& g2.data_chains@[c].nodes@ == g1.data_chains@[c].nodes@.update(n, node)
    &&& forall|i: int| 0 <= i < g1.data_chains@.len() && i != c ==> #[trigger] g2.data_chains@[i] == g1.data_chains@[i]
}
broadcast proof fn lemma_node_set(g1: DataGraph, g2: DataGraph, c: int, n: int, node: DataNode)
    requires #[trigger] node_set(g1, g2, c, n, node), 0 <= c < g1.data_chains@.len(), 0 <= n < g1.data_chains@[c].nodes@.len(),
    ensures
        node_shape(node) == shape(g1)[c][n] ==> shape(g2) == shape(g1),
        logs(g2) == logs(g1).update(c, logs(g1)[c].update(n, node_log(node))),
        node_log(node) == logs(g1)[c][n] ==> logs(g2) == logs(g1),
{
    if node_shape(node) == shape(g1)[c][n] {
        assert(chain_shape(g2.data_chains@[c]) =~= chain_shape(g1.data_chains@[c]));
        assert(shape(g2) =~= shape(g1));
    }
    let l = logs(g1).update(c, logs(g1)[c].update(n, node_log(node)));
    assert(chain_logs(g2.data_chains@[c]) =~= l[c]);
    assert(logs(g2) =~= l);
    if node_log(node) == logs(g1)[c][n] { assert(l[c] =~= logs(g1)[c]); assert(l =~= logs(g1)); }
}
