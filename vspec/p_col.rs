// ---- prelude: collections and dates of std, petgraph and chrono as dependencies under assumed contracts
pub trait VKey { spec fn s_chars(&self) -> Seq<char>; }
impl VKey for str { open spec fn s_chars(&self) -> Seq<char> { self@ } }
impl VKey for String { open spec fn s_chars(&self) -> Seq<char> { self@ } }

/// std::collections::HashMap with String keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.s_chars()), r is Some ==> *r->0 == self@[k.s_chars()] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.s_chars()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite() ==> r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
}

/// keys(), values() of a map: nothing is said about what is asked of them
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct VMapIter<X> { x: core::marker::PhantomData<X> }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> VMapIter<&'a String> { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> VMapIter<&'a V> { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> VMapIter<(&'a String, &'a V)> { unimplemented!() }
}
impl<X> VMapIter<X> {
    #[verifier::external_body]
    pub fn any<F: FnMut(X) -> bool>(&mut self, f: F) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: FnMut(X) -> bool>(&mut self, f: F) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> usize { unimplemented!() }
}

/// chrono dates and times: points on a line
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDate { x: i32 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveTime { x: i32 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDateTime { x: i64 }
#[verifier::external_body]
pub struct ParseError { x: u8 }
pub uninterp spec fn tnum(t: NaiveDateTime) -> int;
pub uninterp spec fn dt_of(d: NaiveDate, t: NaiveTime) -> NaiveDateTime;
pub uninterp spec fn midnight() -> NaiveTime;
pub uninterp spec fn date_ok(s: Seq<char>, f: Seq<char>) -> bool;
pub uninterp spec fn date_val(s: Seq<char>, f: Seq<char>) -> NaiveDate;
pub uninterp spec fn time_ok(s: Seq<char>, f: Seq<char>) -> bool;
pub uninterp spec fn time_val(s: Seq<char>, f: Seq<char>) -> NaiveTime;
pub mod ax_col { use super::*;
pub broadcast axiom fn dnum_inj(a: NaiveDate, b: NaiveDate) ensures #[trigger] dnum(a) == #[trigger] dnum(b) ==> a == b;
pub broadcast axiom fn tnum_inj(a: NaiveDateTime, b: NaiveDateTime) ensures #[trigger] tnum(a) == #[trigger] tnum(b) ==> a == b;
}
impl NaiveDate {
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveDate, ParseError>) ensures r is Ok <==> date_ok(s@, f@), r is Ok ==> r->Ok_0 == date_val(s@, f@) { unimplemented!() }
    #[verifier::external_body]
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
        ensures h < 24 && m < 60 && s < 60 ==> r is Some, h == 0 && m == 0 && s == 0 ==> r == Some(dt_of(*self, midnight())) { unimplemented!() }
    #[verifier::external_body]
    pub fn and_time(&self, t: NaiveTime) -> (r: NaiveDateTime) ensures r == dt_of(*self, t) { unimplemented!() }
}
pub uninterp spec fn date_field(f: int, d: NaiveDate) -> int;
pub uninterp spec fn time_field(f: int, t: NaiveDateTime) -> int;
pub uninterp spec fn dnum(d: NaiveDate) -> int;
pub uninterp spec fn date_other(f: int, d: NaiveDate) -> Option<NaiveDate>;
pub uninterp spec fn date_part(t: NaiveDateTime) -> NaiveDate;
pub uninterp spec fn time_part(t: NaiveDateTime) -> NaiveTime;
impl NaiveDate {
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == date_field(0, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == date_field(1, *self), 1 <= r <= 12 { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == date_field(2, *self), 1 <= r <= 31 { unimplemented!() }
    #[verifier::external_body]
    pub fn ordinal(&self) -> (r: u32) ensures r == date_field(3, *self), 1 <= r <= 366 { unimplemented!() }
    #[verifier::external_body]
    pub fn leap_year(&self) -> (r: bool) ensures r == (date_field(4, *self) != 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn succ_opt(&self) -> (r: Option<NaiveDate>) ensures r == date_other(0, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(&self) -> (r: Option<NaiveDate>) ensures r == date_other(1, *self) { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn date(&self) -> (r: NaiveDate) ensures r == date_part(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: NaiveTime) ensures r == time_part(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hour(&self) -> (r: u32) ensures r == time_field(0, *self), r < 24 { unimplemented!() }
    #[verifier::external_body]
    pub fn minute(&self) -> (r: u32) ensures r == time_field(1, *self), r < 60 { unimplemented!() }
    #[verifier::external_body]
    pub fn second(&self) -> (r: u32) ensures r == time_field(2, *self), r < 60 { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == time_field(3, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == time_field(4, *self), 1 <= r <= 12 { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == time_field(5, *self), 1 <= r <= 31 { unimplemented!() }
}
impl PartialEq for NaiveDate {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for NaiveDate {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialOrd for NaiveDate {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NaiveDate {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if dnum(*self) < dnum(*o) { Some(core::cmp::Ordering::Less) } else if dnum(*self) > dnum(*o) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl NaiveTime {
    #[verifier::external_body]
    pub exec const MIN: NaiveTime ensures Self::MIN == midnight() { NaiveTime { x: 0 } }
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<NaiveTime, ParseError>) ensures r is Ok <==> time_ok(s@, f@), r is Ok ==> r->Ok_0 == time_val(s@, f@) { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn new(d: NaiveDate, t: NaiveTime) -> (r: NaiveDateTime) ensures r == dt_of(d, t) { unimplemented!() }
}
impl PartialEq for NaiveDateTime {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for NaiveDateTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialOrd for NaiveDateTime {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NaiveDateTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if tnum(*self) < tnum(*o) { Some(core::cmp::Ordering::Less) } else if tnum(*self) > tnum(*o) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
#[verifier::external_body]
pub struct Local { x: u8 }
impl Local { #[verifier::external_body] pub fn now() -> Local { unimplemented!() } #[verifier::external_body] pub fn naive_local(&self) -> NaiveDateTime { unimplemented!() } }
/// Option's order: None before every Some
pub open spec fn topt(a: Option<NaiveDateTime>) -> (bool, int) { match a { None => (false, 0), Some(x) => (true, tnum(x)) } }
#[verifier::external_body]
pub fn v_opt_lt(a: Option<NaiveDateTime>, b: Option<NaiveDateTime>) -> (r: bool)
    ensures r == (match (a, b) { (None, None) => false, (None, Some(_)) => true, (Some(_), None) => false, (Some(x), Some(y)) => tnum(x) < tnum(y) }) { unimplemented!() }

/// std::collections::BTreeMap with points in time as keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
/// k is the greatest key
pub open spec fn is_last<V>(m: Map<NaiveDateTime, V>, k: NaiveDateTime) -> bool { m.contains_key(k) && forall|j: NaiveDateTime| #[trigger] m.contains_key(j) ==> tnum(j) <= tnum(k) }
pub open spec fn is_first_key<V>(m: Map<NaiveDateTime, V>, k: NaiveDateTime) -> bool { m.contains_key(k) && forall|j: NaiveDateTime| #[trigger] m.contains_key(j) ==> tnum(j) >= tnum(k) }
impl<V> BTreeMap<NaiveDateTime, V> {
    pub uninterp spec fn view(&self) -> Map<NaiveDateTime, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<NaiveDateTime, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: NaiveDateTime, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &NaiveDateTime) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &NaiveDateTime) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: NaiveDateTime| !#[trigger] self@.contains_key(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&NaiveDateTime, &V)>)
        ensures match r { None => forall|k: NaiveDateTime| !#[trigger] self@.contains_key(k), Some(p) => is_last(self@, *p.0) && *p.1 == self@[*p.0] } { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&NaiveDateTime, &V)>)
        ensures match r { None => forall|k: NaiveDateTime| !#[trigger] self@.contains_key(k), Some(p) => is_first_key(self@, *p.0) && *p.1 == self@[*p.0] } { unimplemented!() }
}

/// petgraph::Graph (directed)
#[derive(Clone, Copy)]
pub struct NodeIndex { pub i: usize }
#[derive(Clone, Copy)]
pub struct EdgeIndex { pub i: usize }
impl PartialEq for NodeIndex {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for NodeIndex {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::accept_recursive_types(E)]
pub struct Graph<N, E> { k: core::marker::PhantomData<N>, v: core::marker::PhantomData<E> }
impl<N, E> Graph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    /// source, target, weight
    pub uninterp spec fn edges(&self) -> Seq<(int, int, E)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.nodes() == Seq::<N>::empty(), r.edges() == Seq::<(int, int, E)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures r.i == old(self).nodes().len(), final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges() { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight(&self, i: NodeIndex) -> (r: Option<&N>) ensures r is Some <==> i.i < self.nodes().len(), r is Some ==> *r->0 == self.nodes()[i.i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn find_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: Option<EdgeIndex>)
        ensures match r { Some(e) => e.i < self.edges().len() && self.edges()[e.i as int].0 == a.i && self.edges()[e.i as int].1 == b.i,
            None => forall|k: int| 0 <= k < self.edges().len() ==> !((#[trigger] self.edges()[k]).0 == a.i && self.edges()[k].1 == b.i) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: bool)
        ensures r == exists|k: int| 0 <= k < self.edges().len() && (#[trigger] self.edges()[k]).0 == a.i && self.edges()[k].1 == b.i { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) -> (r: EdgeIndex)
        requires a.i < old(self).nodes().len(), b.i < old(self).nodes().len(),
        ensures r.i == old(self).edges().len(), final(self).edges() == old(self).edges().push((a.i as int, b.i as int, w)), final(self).nodes() == old(self).nodes() { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_weight(&self, e: EdgeIndex) -> (r: Option<&E>) ensures r is Some <==> e.i < self.edges().len(), r is Some ==> *r->0 == self.edges()[e.i as int].2 { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_weight_mut(&mut self, e: EdgeIndex) -> (r: Option<&mut E>)
        ensures r is Some <==> e.i < old(self).edges().len(), final(self).nodes() == old(self).nodes(),
            match r { None => final(self).edges() == old(self).edges(), Some(w) => *w == old(self).edges()[e.i as int].2
                && final(self).edges() == old(self).edges().update(e.i as int, (old(self).edges()[e.i as int].0, old(self).edges()[e.i as int].1, *final(w))) } { unimplemented!() }
}

// ---- further functions of the collections
impl<X> VMapIter<X> {
    #[verifier::external_body]
    pub fn last(self) -> Option<X> { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> Option<X> { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> Option<X> { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> Option<X> { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> Option<X> { unimplemented!() }
}
impl<V> BTreeMap<NaiveDateTime, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite() ==> r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_or_insert<'a>(&'a mut self, k: NaiveDateTime, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &NaiveDateTime) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<NaiveDateTime, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> VMapIter<&'a NaiveDateTime> { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> VMapIter<&'a V> { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> VMapIter<(&'a NaiveDateTime, &'a V)> { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &NaiveDateTime) -> (r: Option<&'a mut V>)
        ensures match r { Some(x) => old(self)@.contains_key(*k) && *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
}
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn v_or_insert<'a>(&'a mut self, k: String, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { v }), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.s_chars()), r is Some <==> old(self)@.contains_key(k.s_chars()), r is Some ==> r->0 == old(self)@[k.s_chars()] { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
}
pub enum Direction { Outgoing, Incoming }
impl<N, E> Graph<N, E> {
    #[verifier::external_body]
    pub fn node_count(&self) -> (r: usize) ensures r == self.nodes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_count(&self) -> (r: usize) ensures r == self.edges().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn node_indices(&self) -> VMapIter<NodeIndex> { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_indices(&self) -> VMapIter<EdgeIndex> { unimplemented!() }
    #[verifier::external_body]
    pub fn neighbors(&self, a: NodeIndex) -> VMapIter<NodeIndex> { unimplemented!() }
    #[verifier::external_body]
    pub fn neighbors_undirected(&self, a: NodeIndex) -> VMapIter<NodeIndex> { unimplemented!() }
    #[verifier::external_body]
    pub fn find_edge_undirected(&self, a: NodeIndex, b: NodeIndex) -> (r: Option<(EdgeIndex, Direction)>)
        ensures match r {
            Some(e) => e.0.i < self.edges().len() && ({ let x = self.edges()[e.0.i as int]; (x.0 == a.i && x.1 == b.i && e.1 is Outgoing) || (x.0 == b.i && x.1 == a.i && e.1 is Incoming) }),
            None => forall|k: int| 0 <= k < self.edges().len() ==> !((#[trigger] self.edges()[k]).0 == a.i && self.edges()[k].1 == b.i) && !(self.edges()[k].0 == b.i && self.edges()[k].1 == a.i) } { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_endpoints(&self, e: EdgeIndex) -> (r: Option<(NodeIndex, NodeIndex)>)
        ensures r is Some <==> e.i < self.edges().len(), r is Some ==> (r->0).0.i == self.edges()[e.i as int].0 && (r->0).1.i == self.edges()[e.i as int].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn update_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) -> (r: EdgeIndex)
        requires a.i < old(self).nodes().len(), b.i < old(self).nodes().len(),
        ensures final(self).nodes() == old(self).nodes(), r.i < final(self).edges().len(), final(self).edges()[r.i as int] == (a.i as int, b.i as int, w),
            if exists|k: int| 0 <= k < old(self).edges().len() && (#[trigger] old(self).edges()[k]).0 == a.i && old(self).edges()[k].1 == b.i {
                r.i < old(self).edges().len() && old(self).edges()[r.i as int].0 == a.i && old(self).edges()[r.i as int].1 == b.i && final(self).edges() == old(self).edges().update(r.i as int, (a.i as int, b.i as int, w))
            } else { final(self).edges() == old(self).edges().push((a.i as int, b.i as int, w)) } { unimplemented!() }
}
impl NodeIndex { pub fn index(self) -> (r: usize) ensures r == self.i { self.i } }
impl EdgeIndex { pub fn index(self) -> (r: usize) ensures r == self.i { self.i } }
