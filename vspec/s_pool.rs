// ---- specification of the commodity pool (C06, C09, C11)
pub trait VApart: Sized { spec fn apart(a: Self, b: Self) -> bool; }
impl VApart for Commodity { open spec fn apart(a: Self, b: Self) -> bool { a.v_id@ != b.v_id@ } }
impl VApart for Annotation { open spec fn apart(a: Self, b: Self) -> bool { true } }
impl<V: VApart> HashMap<String, V> {
    /// the inserted value is owned by the caller, thus lies elsewhere than those in the map
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), forall|s: Seq<char>| #[trigger] old(self)@.contains_key(s) ==> V::apart(old(self)@[s], v) { unimplemented!() }
}
/// Box::new: the commodity moves to the heap
#[verifier::external_body]
pub fn v_box(c: Commodity) -> (r: Commodity)
    ensures r.symbol@ == c.symbol@, r.graph_index == c.graph_index, r.annotated == c.annotated, r.name == c.name, r.note == c.note, r.v_id@ != 0 { unimplemented!() }
/// &mut *p for a commodity of the pool. A commodity is complete when it has its place in the graph; from then on it is not changed
/// (which the precondition enforces), so that cderef is its final state.
#[verifier::external_body]
pub fn v_pool_mut<'a>(m: &'a mut HashMap<String, Commodity>, p: VPtr<Commodity>, Ghost(s): Ghost<Seq<char>>) -> (r: &'a mut Commodity)
    requires old(m)@.contains_key(s), caddr(old(m)@[s]) == p, old(m)@[s].graph_index is None,
    ensures *r == old(m)@[s], final(m)@ == old(m)@.insert(s, *final(r)), (*final(r)).graph_index is Some ==> cderef(p) == *final(r) { unimplemented!() }

pub open spec fn pool_entry(pool: CommodityPool, s: Seq<char>) -> bool {
    let c = pool.commodities@[s];
    c.symbol@ == s && c.v_id@ != 0 && cderef(caddr(c)) == c && in_hist(pool.commodity_history, caddr(c))
}
/// every commodity is under its symbol, has its own address and its place in the price graph; every node of the graph is a commodity of the pool
pub open spec fn pool_wf(pool: CommodityPool) -> bool {
    hist_wf(pool.commodity_history)
    && (forall|s: Seq<char>| #[trigger] pool.commodities@.contains_key(s) ==> pool_entry(pool, s))
    && (forall|s: Seq<char>, t: Seq<char>| #[trigger] pool.commodities@.contains_key(s) && #[trigger] pool.commodities@.contains_key(t) && s != t ==> pool.commodities@[s].v_id@ != pool.commodities@[t].v_id@)
    && (forall|k: int| 0 <= k < pool.commodity_history.0.nodes().len() ==> in_pool(pool, #[trigger] pool.commodity_history.0.nodes()[k]))
    && (forall|s: Seq<char>| #[trigger] pool.annotated_commodities@.contains_key(s) ==> pool.commodities@.contains_key(s))
}
pub open spec fn in_pool(pool: CommodityPool, p: VPtr<Commodity>) -> bool { exists|s: Seq<char>| #[trigger] pool.commodities@.contains_key(s) && p == caddr(pool.commodities@[s]) }
/// the address of the commodity with this symbol
pub open spec fn ptr_of(pool: CommodityPool, s: Seq<char>) -> VPtr<Commodity> { caddr(pool.commodities@[s]) }
/// nothing known is lost or moved
pub open spec fn pool_ext(a: CommodityPool, b: CommodityPool) -> bool {
    (forall|s: Seq<char>| #[trigger] a.commodities@.contains_key(s) ==> b.commodities@.contains_key(s) && b.commodities@[s] == a.commodities@[s])
    && (forall|s: Seq<char>| #[trigger] a.annotated_commodities@.contains_key(s) ==> b.annotated_commodities@.contains_key(s) && b.annotated_commodities@[s] == a.annotated_commodities@[s])
    && a.commodity_history.0.nodes().len() <= b.commodity_history.0.nodes().len()
    && (forall|k: int| 0 <= k < a.commodity_history.0.nodes().len() ==> #[trigger] b.commodity_history.0.nodes()[k] == a.commodity_history.0.nodes()[k])
}
/// b has exactly the symbol s in addition to those of a, and the annotation unless there was one
pub open spec fn pool_with(a: CommodityPool, b: CommodityPool, s: Seq<char>, n: Option<Annotation>) -> bool {
    pool_ext(a, b) && b.commodities@.dom() =~= a.commodities@.dom().insert(s) && b.commodity_history.0.edges() == a.commodity_history.0.edges()
    && b.annotated_commodities@ =~= (if n is Some && !a.annotated_commodities@.contains_key(s) { a.annotated_commodities@.insert(s, n->0) } else { a.annotated_commodities@ })
}
/// Theorem (C06): a symbol always leads to the same commodity, different symbols to different ones
pub proof fn symbols_interned(a: CommodityPool, b: CommodityPool, c: CommodityPool, s: Seq<char>, t: Seq<char>)
    requires pool_wf(b), pool_wf(c), pool_ext(b, c), b.commodities@.contains_key(s), c.commodities@.contains_key(t),
    ensures s == t <==> ptr_of(b, s) == ptr_of(c, t), ptr_of(b, s) != nullp::<Commodity>(), cderef(ptr_of(b, s)).symbol@ == s, cderef(ptr_of(c, t)).symbol@ == t,
{ assert(pool_entry(b, s)); assert(pool_entry(c, t)); assert(c.commodities@.contains_key(s)); }
pub proof fn pool_ext_trans(a: CommodityPool, b: CommodityPool, c: CommodityPool)
    requires pool_ext(a, b), pool_ext(b, c),
    ensures pool_ext(a, c),
{
    assert forall|k: int| 0 <= k < a.commodity_history.0.nodes().len() implies #[trigger] c.commodity_history.0.nodes()[k] == a.commodity_history.0.nodes()[k] by {
        assert(b.commodity_history.0.nodes()[k] == a.commodity_history.0.nodes()[k]);
    }
}
pub open spec fn cost_per_unit(r: real, amount: real, cost: real, per_unit: bool) -> bool { r >= 0real && (if per_unit || amount == 0real { r == rabs(cost) } else { r * rabs(amount) == rabs(cost) }) }
/// only prices differ
pub open spec fn same_but_prices(a: CommodityPool, b: CommodityPool) -> bool {
    b.commodities@ == a.commodities@ && b.annotated_commodities@ == a.annotated_commodities@ && b.commodity_history.0.nodes() == a.commodity_history.0.nodes()
}
pub proof fn edges_more(x: Edges, n: int, m: int)
    requires edges_wf(x, n), n <= m,
    ensures edges_wf(x, m),
{ reveal(edges_wf); assert forall|k: int| 0 <= k < x.len() implies 0 <= (#[trigger] x[k]).0 < m && 0 <= x[k].1 < m && x[k].0 != x[k].1 by { assert(0 <= x[k].0 < n); } }
