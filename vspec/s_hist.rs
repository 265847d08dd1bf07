// ---- specification of the price history (C09, C10)
pub type PriceMap = BTreeMap<NaiveDateTime, Quantity>;
pub type CommodityIndex = NodeIndex;
pub type Edges = Seq<(int, int, PriceMap)>;
pub open spec fn has_edge(es: Edges, a: int, b: int) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == a && es[k].1 == b }
pub open spec fn edge_at(es: Edges, a: int, b: int) -> int { choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == a && es[k].1 == b }
/// the recorded prices from node a to node b
pub open spec fn pmap(es: Edges, a: int, b: int) -> Map<NaiveDateTime, Quantity> { if has_edge(es, a, b) { es[edge_at(es, a, b)].2@ } else { Map::empty() } }
/// at least one price
pub open spec fn priced(m: PriceMap) -> bool { exists|t: NaiveDateTime| m@.contains_key(t) }
/// one edge per pair; every edge carries a price
#[verifier::opaque]
pub open spec fn edges_wf(es: Edges, n: int) -> bool {
    (forall|j: int, k: int| 0 <= j < k < es.len() ==> !((#[trigger] es[j]).0 == (#[trigger] es[k]).0 && es[j].1 == es[k].1))
    && (forall|k: int| 0 <= k < es.len() ==> 0 <= (#[trigger] es[k]).0 < n && 0 <= es[k].1 < n && es[k].0 != es[k].1)
    && (forall|k: int| 0 <= k < es.len() ==> priced((#[trigger] es[k]).2))
}
pub open spec fn hist_wf(h: CommodityHistory) -> bool { edges_wf(h.0.edges(), h.0.nodes().len() as int) }
/// the pointer is a node of the history, which the commodity knows
pub open spec fn in_hist(h: CommodityHistory, p: VPtr<Commodity>) -> bool {
    p != nullp::<Commodity>() && cderef(p).graph_index is Some && (cderef(p).graph_index->0).i < h.0.nodes().len() && h.0.nodes()[(cderef(p).graph_index->0).i as int] == p
}
pub mod ax_hist { use super::*;
/// derived equality compares the fields
pub broadcast axiom fn ceq_fields(a: Commodity, b: Commodity)
    ensures #[trigger] ceq(a, b) ==> a.symbol@ == b.symbol@ && a.graph_index == b.graph_index;
pub broadcast axiom fn ceq_refl(a: Commodity) ensures #[trigger] ceq(a, a);
/// a commodity lies at its address
pub broadcast axiom fn at_addr(p: VPtr<Commodity>) ensures (#[trigger] cderef(p)).v_id@ == p.addr;
}
pub open spec fn caddr(c: Commodity) -> VPtr<Commodity> { VPtr { addr: c.v_id@, ph: core::marker::PhantomData } }
pub trait VAddr { fn v_addr(&self) -> VPtr<Commodity>; }
impl VAddr for Commodity {
    #[verifier::external_body]
    fn v_addr(&self) -> (r: VPtr<Commodity>) ensures r == caddr(*self) { unimplemented!() }
}
impl VAddr for VPtr<Commodity> { fn v_addr(&self) -> (r: VPtr<Commodity>) ensures r == *self { *self } }
/// &*p
#[verifier::external_body]
pub fn v_cref<'a>(p: VPtr<Commodity>) -> (r: &'a Commodity)
    requires p != nullp::<Commodity>(),
    ensures *r == cderef(p) { unimplemented!() }
pub open spec fn node_of(p: VPtr<Commodity>) -> int { (cderef(p).graph_index->0).i as int }
pub proof fn edge_unique(es: Edges, n: int, k: int)
    requires edges_wf(es, n), 0 <= k < es.len(),
    ensures has_edge(es, es[k].0, es[k].1), edge_at(es, es[k].0, es[k].1) == k, pmap(es, es[k].0, es[k].1) == es[k].2@,
{
    reveal(edges_wf);
    let j = edge_at(es, es[k].0, es[k].1);
    assert(0 <= j < es.len() && es[j].0 == es[k].0 && es[j].1 == es[k].1);
    if j < k { assert(!(es[j].0 == es[k].0 && es[j].1 == es[k].1)); }
    if k < j { assert(!(es[k].0 == es[j].0 && es[k].1 == es[j].1)); }
}
/// exactly the price q at t from a to b was recorded
pub open spec fn price_added(x: Edges, y: Edges, a: int, b: int, t: NaiveDateTime, q: Quantity) -> bool {
    pmap(y, a, b) == pmap(x, a, b).insert(t, q) && forall|c: int, d: int| !(c == a && d == b) ==> #[trigger] pmap(y, c, d) == pmap(x, c, d)
}
/// exactly a price of value v at t from a to b was recorded
pub open spec fn price_recorded(x: Edges, y: Edges, a: int, b: int, t: NaiveDateTime, v: real) -> bool { exists|q: Quantity| qv(q) == v && #[trigger] price_added(x, y, a, b, t, q) }
/// y is x with the price q at t from a to b put in
pub open spec fn price_put(x: Edges, y: Edges, a: int, b: int, t: NaiveDateTime, q: Quantity) -> bool {
    (exists|k: int| 0 <= k < x.len() && (#[trigger] x[k]).0 == a && x[k].1 == b && y.len() == x.len() && y[k].0 == a && y[k].1 == b && y[k].2@ == x[k].2@.insert(t, q) && (forall|j: int| 0 <= j < x.len() && j != k ==> #[trigger] y[j] == x[j]))
    || (!has_edge(x, a, b) && y.len() == x.len() + 1 && y[x.len() as int].0 == a && y[x.len() as int].1 == b && y[x.len() as int].2@ == Map::<NaiveDateTime, Quantity>::empty().insert(t, q) && (forall|j: int| 0 <= j < x.len() ==> #[trigger] y[j] == x[j]))
}
pub proof fn price_put_added(x: Edges, y: Edges, n: int, a: int, b: int, t: NaiveDateTime, q: Quantity)
    requires edges_wf(x, n), price_put(x, y, a, b, t, q), 0 <= a < n, 0 <= b < n, a != b,
    ensures edges_wf(y, n), price_added(x, y, a, b, t, q),
{
    reveal(edges_wf);
    let k = if !has_edge(x, a, b) { x.len() as int } else { choose|k: int| 0 <= k < x.len() && (#[trigger] x[k]).0 == a && x[k].1 == b && y.len() == x.len() && y[k].0 == a && y[k].1 == b && y[k].2@ == x[k].2@.insert(t, q) && (forall|j: int| 0 <= j < x.len() && j != k ==> #[trigger] y[j] == x[j]) };
    assert(y[k].2@.contains_key(t));
    assert(y[k].0 == a && y[k].1 == b);
    assert forall|j: int| 0 <= j < y.len() implies priced((#[trigger] y[j]).2) by { if j != k { assert(y[j] == x[j]); assert(priced(x[j].2)); } }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies !((#[trigger] y[i]).0 == (#[trigger] y[j]).0 && y[i].1 == y[j].1) by {
        if j < x.len() { assert(!(x[i].0 == x[j].0 && x[i].1 == x[j].1)); }
        else { assert(y[i] == x[i]); assert(!has_edge(x, a, b)); }
    }
    assert forall|j: int| 0 <= j < y.len() implies 0 <= (#[trigger] y[j]).0 < n && 0 <= y[j].1 < n && y[j].0 != y[j].1 by { if j != k { assert(y[j] == x[j]); assert(0 <= x[j].0 < n); } }
    edge_unique(y, n, k);
    if k < x.len() { edge_unique(x, n, k); }
    assert forall|c: int, d: int| !(c == a && d == b) implies #[trigger] pmap(y, c, d) == pmap(x, c, d) by {
        if has_edge(x, c, d) { let e = edge_at(x, c, d); assert(x[e].0 == c && x[e].1 == d); assert(y[e] == x[e]); edge_unique(x, n, e); edge_unique(y, n, e); }
        if has_edge(y, c, d) { let e = edge_at(y, c, d); assert(y[e].0 == c && y[e].1 == d); assert(e != k); assert(y[e] == x[e]); edge_unique(x, n, e); }
    }
}
/// the latest recorded price
pub open spec fn latest(m: Map<NaiveDateTime, Quantity>) -> NaiveDateTime { choose|k: NaiveDateTime| is_last(m, k) }
pub broadcast proof fn latest_is(m: Map<NaiveDateTime, Quantity>, k: NaiveDateTime)
    requires #[trigger] is_last(m, k),
    ensures latest(m) == k,
{ let l = latest(m); assert(is_last(m, l)); assert(tnum(l) <= tnum(k)); assert(tnum(k) <= tnum(l)); ax_col::tnum_inj(l, k); }
pub open spec fn nodes_of(p: Seq<NodeIndex>) -> Seq<int> { p.map_values(|x: NodeIndex| x.i as int) }
/// p leads from a to b over recorded prices
pub open spec fn is_walk(es: Edges, a: int, b: int, p: Seq<int>) -> bool {
    p.len() > 0 && p[0] == a && p.last() == b && forall|k: int| 0 <= k < p.len() - 1 ==> has_edge(es, #[trigger] p[k], p[k + 1])
}
pub open spec fn is_shortest(es: Edges, a: int, b: int, p: Seq<int>) -> bool { is_walk(es, a, b, p) && forall|o: Seq<int>| #[trigger] is_walk(es, a, b, o) ==> p.len() <= o.len() }
/// product of the latest prices along p
#[verifier::opaque]
pub open spec fn hs_chain(es: Edges, p: Seq<int>) -> real
    decreases p.len()
{ if p.len() <= 1 { 1real } else { hs_chain(es, p.drop_last()) * qv(pmap(es, p[p.len() - 2], p.last())[latest(pmap(es, p[p.len() - 2], p.last()))]) } }
/// the least recent of the latest prices along p
#[verifier::opaque]
pub open spec fn hs_oldest(es: Edges, p: Seq<int>) -> Option<NaiveDateTime>
    decreases p.len()
{ if p.len() <= 1 { None } else { let t = latest(pmap(es, p[p.len() - 2], p.last())); match hs_oldest(es, p.drop_last()) { None => Some(t), Some(o) => if tnum(t) < tnum(o) { Some(t) } else { Some(o) } } } }
#[verifier::external_body]
pub struct VEdgeRef { x: u8 }
/// petgraph::algo::astar with constant cost 1 and no estimate: a path with the fewest edges
#[verifier::external_body]
pub fn v_astar<G: Fn(NodeIndex) -> bool, C: Fn(VEdgeRef) -> i32, H: Fn(NodeIndex) -> i32>(g: &Graph<VPtr<Commodity>, PriceMap>, s: NodeIndex, goal: G, cost: C, est: H) -> (r: Option<(i32, Vec<NodeIndex>)>)
    requires
        s.i < g.nodes().len(),
        forall|x: NodeIndex| goal.requires((x,)), forall|x: VEdgeRef| cost.requires((x,)), forall|x: NodeIndex| est.requires((x,)),
        forall|x: VEdgeRef, y: i32| cost.ensures((x,), y) ==> y == 1,
        forall|x: NodeIndex, y: i32| est.ensures((x,), y) ==> y == 0,
    ensures
        forall|t: NodeIndex| #![trigger g.nodes()[t.i as int]] (forall|x: NodeIndex| (goal.ensures((x,), true) ==> x == t) && (goal.ensures((x,), false) ==> x != t)) ==> match r {
            None => forall|p: Seq<int>| !#[trigger] is_walk(g.edges(), s.i as int, t.i as int, p),
            Some(dp) => dp.1@.len() > 0 && dp.0 == dp.1@.len() - 1 && is_shortest(g.edges(), s.i as int, t.i as int, nodes_of(dp.1@)),
        },
{ unimplemented!() }
pub proof fn chain_base(es: Edges, p: Seq<NodeIndex>)
    requires p.len() <= 1,
    ensures hs_chain(es, nodes_of(p)) == 1real, hs_oldest(es, nodes_of(p)) is None,
{ reveal(hs_chain); reveal(hs_oldest); }
/// one more step of the walk
pub proof fn chain_step(es: Edges, p: Seq<NodeIndex>, k: int)
    requires 0 < k < p.len(),
    ensures ({ let a = nodes_of(p.take(k)); let b = nodes_of(p.take(k + 1)); let m = pmap(es, p[k - 1].i as int, p[k].i as int);
        hs_chain(es, b) == hs_chain(es, a) * qv(m[latest(m)])
        && hs_oldest(es, b) == (match hs_oldest(es, a) { None => Some(latest(m)), Some(o) => if tnum(latest(m)) < tnum(o) { Some(latest(m)) } else { Some(o) } }) }),
{
    reveal(hs_chain); reveal(hs_oldest);
    let b = nodes_of(p.take(k + 1));
    assert(b.drop_last() =~= nodes_of(p.take(k)));
    assert(b[b.len() - 2] == p[k - 1].i && b.last() == p[k].i);
}
pub proof fn walk_edge(es: Edges, a: int, b: int, p: Seq<NodeIndex>, n: int, k: int)
    requires is_walk(es, a, b, nodes_of(p)), edges_wf(es, n), 0 < k < p.len(),
    ensures has_edge(es, p[k - 1].i as int, p[k].i as int), p[k - 1].i != p[k].i, p[0].i == a,
{
    reveal(edges_wf);
    let w = nodes_of(p);
    assert(has_edge(es, w[k - 1], w[k - 1 + 1]));
    let e = edge_at(es, w[k - 1], w[k]);
    assert(es[e].0 == w[k - 1] && es[e].1 == w[k]);
}
pub proof fn direct_rate(es: Edges, a: int, b: int, p: Seq<NodeIndex>, n: int)
    requires is_shortest(es, a, b, nodes_of(p)), p.len() > 0, edges_wf(es, n), a != b,
    ensures p[0].i == a, p.last().i == b, p.len() > 1,
        p.len() == 2 ==> has_edge(es, a, b) && hs_chain(es, nodes_of(p)) == qv(pmap(es, a, b)[latest(pmap(es, a, b))]) && hs_oldest(es, nodes_of(p)) == Some(latest(pmap(es, a, b))),
{
    let w = nodes_of(p);
    assert(w[0] == p[0].i && w.last() == p.last().i);
    if p.len() == 2 {
        walk_edge(es, a, b, p, n, 1); chain_step(es, p, 1);
        assert(p.take(2) =~= p);
        assert(nodes_of(p.take(1)).len() == 1);
        chain_base(es, p.take(1));
    }
}
